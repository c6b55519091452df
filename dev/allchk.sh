cd /verif/tool; python3 -c "
import sys; sys.path.insert(0,'/verif/tool'); sys.path.insert(0,'/verif/checks')
import run; print('\n'.join(sorted(run.load_checks())))" | xargs -P 8 -I{} sh -c 'python3 run.py {} > /tmp/o.{} 2>&1; echo "{} rc=$? $(grep -c key= /tmp/o.{}) $(tail -1 /tmp/o.{} | cut -c1-150)"' | sort
