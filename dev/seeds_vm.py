VH='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "rlib/rmem.h"
#include "rvm/rvmcpu.h"
#include "rvm/rvmcodegen.h"
'''
S('V11a','V11',[('rvm/rvmcodegen.c','''	long codeidx = rvm_codemap_lookupadd_s(cg->codemap, ".code");
	rvm_codelabel_t *label = rvm_codemap_label(cg->codemap, index);

	if (!label)
		return -1;
''','''	rvm_codelabel_t *label = rvm_codemap_label(cg->codemap, index);
	long codeidx;

	if (!label)
		return -1;
	codeidx = rvm_codemap_lookupadd_s(cg->codemap, ".code");
''')],
 'the label .code does not exist yet and entering it makes the table of labels grow','the label is defined in the memory the table had before',
 VH+'''int main(){ for (int n = 1; n < 80; n++) { rvm_codegen_t *cg = rvm_codegen_create(); char b[16]; for (int i = 0; i < n; i++) { sprintf(b, "l%d", i); rvm_codegen_invalid_addlabel_s(cg, b); }
 rvm_codegen_redefinelabel(cg, 0, 0); if (!rvm_codegen_validlabel(cg, 0)) return 1; rvm_codegen_destroy(cg); } return 0; }''','rvm')
S('V11b','V11',[('rvm/rvmcodemap.c','''	if (labelidx < 0)
		labelidx = rvm_codemap_invalid_add''','''	if (labelidx <= 0)
		labelidx = rvm_codemap_invalid_add''')],
 'the first label of the table is looked up again','the first label becomes undefined when something refers to it',
 VH+'''int main(){ int x; rvm_codemap_t *m = rvm_codemap_create(); long i = rvm_codemap_addpointer_s(m, "first", &x); if (rvm_codemap_lookupadd_s(m, "first") != i) return 1; return !rvm_codemap_validindex(m, i); }''','rvm')
S('V11c','V11',[('rvm/rvmrelocmap.c','''		if (value == (ruword)-1)
			return -1;
''','''		if (value == (ruword)-1)
			break;
''')],
 'a program with an undefined label','relocation is said to have succeeded though a label is undefined',
 VH+'''int main(){ rvm_codelabel_t *e = NULL; rvm_codegen_t *cg = rvm_codegen_create(); rvm_codegen_addrelocins_s(cg, RVM_RELOC_BRANCH, "nowhere", rvm_asm(RVM_B, DA, XX, XX, 0)); rvm_codegen_addins(cg, rvm_asm(RVM_EXT, XX, XX, XX, 0));
 return rvm_codegen_relocate(cg, &e) != -1; }''','rvm')
S('V11d','V11',[('rvm/rvmcodegen.c','r_memset(buffer, 0, size + sizeof(ruword));','r_memset(buffer, 0, size);')],
 'data without a terminating zero put where longer data was before the generator was cleared','a string in the data runs on into old data',
 VH+'''int main(){ rvm_codelabel_t *e = NULL; rvm_codegen_t *cg = rvm_codegen_create(); char b[256]; memset(b, 'x', sizeof b); rvm_codegen_adddata_s(cg, "old", b, sizeof b); rvm_codegen_clear(cg);
 rvm_codegen_adddata_s(cg, "s", "abc", 3); rvm_codegen_addrelocins_s(cg, RVM_RELOC_STRING, "s", rvm_asm(RVM_MOV, R0, DA, XX, 0)); if (rvm_codegen_relocate(cg, &e)) return 1; return rvm_codegen_getcode(cg, 0)->data.size != 3; }''','rvm')
S('V11e','V11',[('rvm/rvmrelocmap.c','''			} else if (reloc->type == RVM_RELOC_STRING) {
				code[reloc->offset].data.v.w = value;
				code[reloc->offset].data.size = r_strlen((char*)value);
			} else if''','''			} else if''')],
 'an instruction that is given a string','the instruction does not know the length of its string',
 VH+'''int main(){ rvm_codelabel_t *e = NULL; rvm_codegen_t *cg = rvm_codegen_create(); rvm_codegen_addstring_s(cg, "s", "abcde"); rvm_codegen_addrelocins_s(cg, RVM_RELOC_STRING, "s", rvm_asm(RVM_MOV, R0, DA, XX, 0)); if (rvm_codegen_relocate(cg, &e)) return 1; return rvm_codegen_getcode(cg, 0)->data.size != 5; }''','rvm')
S('V04a','V04',[('rvm/rvmcpu.c','	if (opcode >= RVM_COUNT)\n		return -1;\n	cpu->ops','	if (opcode > RVM_COUNT)\n		return -1;\n	cpu->ops')],
 'a handler is installed at the first number beyond the table','the fields of the machine behind the table are overwritten',
 VH+'''int main(){ rvmcpu_t *cpu = rvm_cpu_create(64); return rvm_cpu_setophandler(cpu, RVM_COUNT, "X", NULL) != -1; }''','rvm')
S('R09a','R09',[('rlib/rcharconv.c','c >= 0x0390 && c <= 0x03AB','c >= 0x0390 && c <= 0x03AF')],
 'one of four accented Greek letters','swapping the case twice gives another letter',
 '''#include "rlib/rcharconv.h"
int main(){ for (unsigned long c = 0; c < 0x11000; c++) if (r_charicase(r_charicase(c)) != c) return 1; return 0; }''','rlib')
S('P03a','P03',[('rpa/rpavm.c','''	while (rpa_stat_matchspchr(stat, (long)RVM_CPUREG_GETL(cpu, R_TOP), (unsigned long)wc) > 0) {
		rpavm_swi_shift(cpu, ins);
		matched += 1;
	}
	cpu->status = matched ? 0 : RVM_STATUS_N;''','''	while (rpa_stat_matchspchr(stat, (long)RVM_CPUREG_GETL(cpu, R_TOP), (unsigned long)wc) > 0) {
		rpavm_swi_shift(cpu, ins);
		matched = 1;
	}
	cpu->status = matched ? 0 : RVM_STATUS_N;''')],
 'any character, one or more times, over two characters or more','the instruction says that it consumed one character',
 VH+'''#include "rpa/rpastatpriv.h"
#include "rpa/rpavm.h"
int main(){ rpadbex_t *d = rpa_dbex_create(); rpa_dbex_open(d); rpa_dbex_load_s(d, "a ::= 'a'"); rpa_dbex_close(d); rpa_dbex_compile(d); rpastat_t *s = rpa_stat_create(d, 0); rvm_asmins_t c[3]; const char *t = "abc";
 c[0] = rvm_asm(RPA_SHIFT, XX, XX, XX, 0); c[1] = rvm_asm(RPA_MATCHSPCHR_MUL, DA, XX, XX, '.'); c[2] = rvm_asm(RVM_EXT, XX, XX, XX, 0); rpa_stat_exec(s, c, 0, RPA_ENCODING_UTF8, t, t, t + 3, NULL);
 return RVM_CPUREG_GETL(s->cpu, R0) != 3; }''','rpa')
