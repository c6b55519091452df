import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fe
fe.build_irx()
print('setup ok')
