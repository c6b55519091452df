SH='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "rpa/rpadbex.h"
#include "rpa/rpastat.h"
#include "rpa/rparecord.h"
#include "rpa/rpacache.h"
#include "rpa/rpastatpriv.h"
#include "rvm/rvmcpu.h"
'''
S('G01a','G01',[('rpa/rpacache.c','void rpa_cache_disable(rpacache_t *cache, long disable)\n{\n	cache->disalbled = disable;\n','static long rpa_cache_disabled = 0;\n\nvoid rpa_cache_disable(rpacache_t *cache, long disable)\n{\n	rpa_cache_disabled = disable;\n'),
 ('rpa/rpacache.c','	if (cache->disalbled)\n		return;\n','	if (rpa_cache_disabled)\n		return;\n'),('rpa/rpacache.c','	if (cache->disalbled)\n		return NULL;\n','	if (rpa_cache_disabled)\n		return NULL;\n')],
 'two caches, one of them disabled','disabling one cache disables every other one',
 SH+'''int main(){ rpacache_t*a=rpa_cache_create(),*b=rpa_cache_create(); rarray_t*r=r_array_create(sizeof(rparecord_t)); rpacachedentry_t*e;
 rpa_cache_invalidate(a); rpa_cache_invalidate(b); rpa_cache_disable(a,1); rpa_cache_set(b,3,40,2,r,0,0); e=rpa_cache_lookup(b,3,40); if(!e){ printf("b is disabled too\\n"); return 1; }
 rpa_cache_set(a,3,40,2,r,0,0); return rpa_cache_lookup(a,3,40)?1:0; }''','rpa')
S('G01b','G01',[('rvm/rvmcpu.c','	return tabname ? rvm_cpu_table_swilookup(cpu, tabname, swiname, size) : rvm_cpu_global_swilookup(cpu, swiname, size);','	static const char *last = NULL;\n	static int lastid = -1;\n\n	if (tabname)\n		return rvm_cpu_table_swilookup(cpu, tabname, swiname, size);\n	if (last != swiname) {\n		lastid = rvm_cpu_global_swilookup(cpu, swiname, size);\n		last = lastid < 0 ? NULL : swiname;\n	}\n	return lastid;')],
 'the same name looked up in two machines with different tables, one after the other','the second machine is told the number of the first one',
 SH+'''static void f(rvmcpu_t*c,rvm_asmins_t*i){} static rvm_switable_t t1[]={{"one",f},{NULL,NULL}},t2[]={{"two",f},{"three",f},{NULL,NULL}};
int main(){ rvmcpu_t*a=rvm_cpu_create_default(),*b=rvm_cpu_create_default(); static const char n[]="three"; rvm_cpu_addswitable(a,"t1",t1); rvm_cpu_addswitable(a,"t2",t2); rvm_cpu_addswitable(b,"t2",t2);
 int x=rvm_cpu_swilookup_s(a,NULL,n), y=rvm_cpu_swilookup_s(b,NULL,n), z=rvm_cpu_swilookup_s(b,"t2",n); printf("%d %d %d\\n",x,y,z); return x==y||y!=z; }''','rpa')
PG='''static rpadbex_t*db(const char*g){ rpadbex_t*d=rpa_dbex_create(); rpa_dbex_open(d); if(rpa_dbex_load(d,g,strlen(g))<0) exit(3); rpa_dbex_close(d); if(rpa_dbex_compile(d)<0) exit(4); return d; }
static long p(rpastat_t*s,rparule_t r,int enc,const char*t){ return rpa_stat_parse(s,r,enc,t,t,t+strlen(t),NULL); }
'''
S('P08a','P08',[('rpa/rpadbex.c','''	info = (rpa_ruleinfo_t *)r_harray_get(dbex->rules, rid);
	if (!info) {
		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTFOUND);
		return -1;
	}
	return info->codeoff;''','''	info = (rpa_ruleinfo_t *)r_harray_get(dbex->rules, rid);
	if (!info) {
		dbex->compiled = 0;
		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTFOUND);
		return -1;
	}
	return info->codeoff;''')],
 'an execution with a rule number that does not exist, followed by another execution','every execution of the database fails from then on',
 SH+PG+'''int main(){ rpadbex_t*d=db("S ::= 'a'+\\n"); rpastat_t*s=rpa_stat_create(d,0),*u=rpa_stat_create(d,0); if(p(s,rpa_dbex_first(d),RPA_ENCODING_UTF8,"aa")!=2) return 5; if(p(s,100000,RPA_ENCODING_UTF8,"aa")>=0) return 6;
 long n=p(u,rpa_dbex_first(d),RPA_ENCODING_UTF8,"aa"); printf("%ld\\n",n); return n!=2; }''','rpa')
S('P08b','P08',[('rpa/rpavm.c','''	if (rpa_stat_matchchr(stat, (long)RVM_CPUREG_GETL(cpu, R_TOP), (unsigned long)wc) > 0) {
		rpavm_swi_shift(cpu, ins);
		matched = 1;
	}
	cpu->status = matched ? 0 : RVM_STATUS_N;''','''	if (rpa_stat_matchchr(stat, (long)RVM_CPUREG_GETL(cpu, R_TOP), (unsigned long)wc) > 0) {
		if (stat->encoding & RPA_ENCODING_ICASE)
			ins->data.v.w = stat->instack[(long)RVM_CPUREG_GETL(cpu, R_TOP)].wc;
		rpavm_swi_shift(cpu, ins);
		matched = 1;
	}
	cpu->status = matched ? 0 : RVM_STATUS_N;''')],
 'a grammar executed ignoring case and then respecting it','the character of the grammar has changed to the one that was in the text',
 SH+PG+'''int main(){ rpadbex_t*d=db("S ::= 'a' 'b'\\n"); rpastat_t*s=rpa_stat_create(d,0); if(p(s,rpa_dbex_first(d),RPA_ENCODING_UTF8,"ab")!=2) return 5; if(p(s,rpa_dbex_first(d),RPA_ENCODING_ICASE_UTF8,"AB")!=2) return 6;
 long n=p(s,rpa_dbex_first(d),RPA_ENCODING_UTF8,"ab"); printf("%ld\\n",n); return n!=2; }''','rpa')

S('P06a','P06',[('rpa/rpadbex.c','	if (!dbex->rules) {\n		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTCLOSED);\n		return -1;\n	}\n	if (!dbex->compiled) {','	if (!dbex->compiled && !dbex->rules) {\n		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTCLOSED);\n		return -1;\n	}\n	if (dbex->compiled == 0 && dbex->co == NULL) {')],
 'a database that was closed and not compiled','the offset of a rule that has no code is handed out',
 SH+PG+"""int main(){ rpadbex_t*d=rpa_dbex_create(); const char*g="S ::= 'a'\\n"; rpa_dbex_open(d); if(rpa_dbex_load(d,g,strlen(g))<0) return 3; rpa_dbex_close(d);
 long o=rpa_dbex_executableoffset(d,rpa_dbex_first(d)); printf("%ld\\n",o); return o!=-1; }""",'rpa')
S('P06b','P06',[('rpa/rpadbex.c','		dbex->rules = NULL;\n	}\n	dbex->compiled = 0;\n	return 0;','		dbex->rules = NULL;\n	}\n	return 0;')],
 'a compiled database that is opened again, extended and closed without compiling','the program of the database before the extension runs',
 SH+PG+"""int main(){ rpadbex_t*d=db("S ::= 'a'\\n"); const char*g="T ::= 'b'\\n"; if(!rpa_dbex_executable(d)) return 5; rpa_dbex_open(d); if(rpa_dbex_load(d,g,strlen(g))<0) return 3; rpa_dbex_close(d);
 if(rpa_dbex_executable(d)){ printf("old program\\n"); return 1;} return 0; }""",'rpa')
S('P06c','P06',[('rpa/rpadbex.c','	if (dbex->rules) {\n		/*\n		 * Dbex is not open\n		 */','	if (dbex->rules && dbex->compiled) {\n		/*\n		 * Dbex is not open\n		 */')],
 'a text loaded into a database that is closed but not compiled','the text is accepted, its rules are missing',
 SH+PG+"""int main(){ rpadbex_t*d=rpa_dbex_create(); const char*g="S ::= 'a'\\n"; rpa_dbex_open(d); if(rpa_dbex_load(d,g,strlen(g))<0) return 3; rpa_dbex_close(d); 
 long n=rpa_dbex_load(d,"T ::= 'b'\\n",10); printf("%ld\\n",n); return n>=0; }""",'rpa')
LK='''#include <stdlib.h>
static long live; void*__real_malloc(size_t); void*__real_calloc(size_t,size_t); void*__real_realloc(void*,size_t); void __real_free(void*);
void*__wrap_malloc(size_t n){ void*p=__real_malloc(n); live+=p!=NULL; return p; }
void*__wrap_calloc(size_t a,size_t b){ void*p=__real_calloc(a,b); live+=p!=NULL; return p; }
void*__wrap_realloc(void*q,size_t n){ void*p=__real_realloc(q,n); live+=(p!=NULL&&q==NULL); return p; }
void __wrap_free(void*p){ live-=p!=NULL; __real_free(p); }
#define LEAK(N,ONCE) int main(){ long a,i; for(i=0;i<3;i++){ONCE;} a=live; for(i=0;i<N;i++){ONCE;} a=live-a; printf("%ld blocks more after %d rounds\\n",a,N); return a>=N; }
'''
WR=' -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free'
S('G02a','G02',[('rex/rexdfa.c','	if (dfa) {\n		r_free(dfa->substates);','	if (dfa && !dfa->nsubstates) {\n		/* built without subsets */\n		r_free(dfa->accsubstates);\n		r_free(dfa->states);\n		r_free(dfa->trans);\n		r_free(dfa);\n	} else if (dfa) {\n		r_free(dfa->substates);')],
 'an automaton created without subsets for which a hash was computed, destroyed','the hash bits are never freed',
 '#include <stdio.h>\n#include "rex/rexdfa.h"\n#include "rex/rexdfaconv.h"\n#include "rex/rexdb.h"\n'+LK+'''static void once(void){ rexdfa_t*d=rex_dfa_create(2,2,2,0); rex_dfa_hash(d,1,8); rex_dfa_hash(d,1,8); rex_dfa_destroy(d); }
LEAK(50,once())''',L['rex']+WR,san='')
S('G02b','G02',[('rex/rexdfa.c','	if (dfa->bits)\n		r_free(dfa->bits);','	if (dfa->bits && dfa->hbytes == hbytes && dfa->hbits == hbits)\n		r_free(dfa->bits);')],
 'a hash computed again with other parameters','the previous bits are never freed',
 '#include <stdio.h>\n#include "rex/rexdfa.h"\n#include "rex/rexdfaconv.h"\n#include "rex/rexdb.h"\n'+LK+'''static void once(void){ rexdfa_t*d=rex_dfa_create(2,2,2,0); rex_dfa_hash(d,1,8); rex_dfa_hash(d,1,10); rex_dfa_hash(d,1,9); rex_dfa_destroy(d); }
LEAK(50,once())''',L['rex']+WR,san='')
S('G02c','G02',[('rpa/rpadbex.c','	if (dbex->rules) {\n		r_object_destroy((robject_t *)dbex->rules);\n		dbex->rules = NULL;\n	}\n	dbex->compiled = 0;\n	return 0;','	if (dbex->rules && dbex->compiled)\n		r_object_destroy((robject_t *)dbex->rules);\n	dbex->rules = NULL;\n	dbex->compiled = 0;\n	return 0;')],
 'a database that was closed but not compiled and is opened again','its table of rules is never freed',
 SH+LK+'''static rpadbex_t*d; static void once(void){ rpa_dbex_close(d); rpa_dbex_open(d); }
static long runs(void){ if(!d){ const char*g="S ::= 'a'\\n"; d=rpa_dbex_create(); rpa_dbex_open(d); rpa_dbex_load(d,g,strlen(g)); } once(); return 0; }
LEAK(50,runs())''',L['rpa']+WR,san='')
S('G02d','G02',[('rpa/rpadbex.c','			r_free(r_array_index(dbex->text, i, char*));\n','			if (dbex->rules)\n				r_free(r_array_index(dbex->text, i, char*));\n')],
 'a database that is destroyed while open','the texts of the grammar are never freed',
 SH+LK+'''static void once(void){ const char*g="S ::= 'a'\\n"; rpadbex_t*d=rpa_dbex_create(); rpa_dbex_open(d); rpa_dbex_load(d,g,strlen(g)); rpa_dbex_destroy(d); }
LEAK(20,once())''',L['rpa']+WR,san='')
