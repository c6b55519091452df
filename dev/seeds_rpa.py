PH='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "rpa/rpadbex.h"
#include "rpa/rpastat.h"
#include "rpa/rparecord.h"
#include "rpa/rpacache.h"
#include "rpa/rpastatpriv.h"
static rpastat_t *mk(const char*g){ rpadbex_t*d=rpa_dbex_create(); rpa_dbex_open(d); if(rpa_dbex_load(d,g,strlen(g))<0) exit(3); rpa_dbex_close(d); if(rpa_dbex_compile(d)<0) exit(4); return rpa_stat_create(d,0); }
static long go(rpastat_t*s,int enc,const void*in,long n,rarray_t*rec){ char*b=malloc(n); long r; memcpy(b,in,n); r=rpa_stat_parse(s,rpa_dbex_first(s->dbex),enc,b,b,b+n,rec); free(b); return r; }
'''
S('P01b','P01',[('rpa/rpastat.c','	return r_utf16_mbtowc(pwc, (const unsigned char*)input, (const unsigned char*)stat->end);','	return r_utf16_mbtowc(pwc, (const unsigned char*)input, (const unsigned char*)stat->end + ((stat->end - input) & 1));')],
 'UTF-16 input of an odd number of bytes','the last character is read one byte past the end of the input',
 PH+'''int main(){ rpastat_t*s=mk("S ::= .+\\n"); if(go(s,RPA_ENCODING_UTF16LE,"a\\0b\\0",4,NULL)!=4) return 1; go(s,RPA_ENCODING_UTF16LE,"a\\0b",3,NULL); return 0; }''','rpa')
S('P01c','P01',[('rpa/rpastat.c','	if (top >= (long)stat->ip.serial) {','	if (top > (long)stat->ip.serial) {')],
 'any','the entry at the mark is taken for read already', PH+'''int main(){ rpastat_t*s=mk("S ::= 'a' 'b' 'c'\\n"); if(go(s,RPA_ENCODING_UTF8,"abc",3,NULL)!=3) return 1; return 0; }''','rpa')
S('P02b','P02',[('rpa/rpastat.c','|| (in->iwc >= wc1 && in->iwc <= wc2)) ? 1 : 0;','|| (in->iwc >= wc1 && in->wc <= wc2)) ? 1 : 0;')],
 'case-insensitive range test, character whose case swap lies above the range','a character is accepted although neither it nor its case swap lies in the range',
 PH+'''int main(){ rpastat_t*s=mk("S ::= [F-H]+\\n"); if(go(s,RPA_ENCODING_UTF8|RPA_ENCODING_ICASE_UTF8,"fgh",3,NULL)!=3) return 1; if(go(s,RPA_ENCODING_UTF8|RPA_ENCODING_ICASE_UTF8,"A",1,NULL)>0) { printf("accepted A\\n"); return 1;} if(go(s,RPA_ENCODING_UTF8|RPA_ENCODING_ICASE_UTF8,"J",1,NULL)>0) return 1; return 0; }''','rpa')
S('P03b','P03',[('rpa/rpavm.c','	cpu->status = matched ? 0 : RVM_STATUS_Z;\n	RVM_CPUREG_SETU(cpu, R0, matched );\n}\n\n\nstatic void rpavm_swi_emittail','	cpu->status = matched ? 0 : RVM_STATUS_Z;\n	if (matched)\n		RVM_CPUREG_SETU(cpu, R0, matched);\n}\n\n\nstatic void rpavm_swi_emittail')],
 'a repeated range that matches nothing','R0 keeps the result of the previous instruction instead of 0',
 PH+'''static long run(rpastat_t*s,const char*name,ruword r0){ int id=rvm_cpu_swilookup_s(s->cpu,NULL,name); rvm_asmins_t p[4]; p[0]=rvm_asm(RVM_MOV,R0,DA,XX,r0); p[1]=rvm_asm2(RVM_OPSWI(id),DA,XX,XX,'x','z'); p[2]=rvm_asm(RVM_EXT,XX,XX,XX,0); s->instack[0].eof=1; rvm_cpu_setreg(s->cpu,R_TOP,rvm_cpu_getreg(s->cpu,R_TOP)); RVM_CPUREG_SETL(s->cpu,R_TOP,0); rvm_cpu_exec(s->cpu,p,0); return RVM_CPUREG_GETL(s->cpu,R0); }
int main(){ rpastat_t*s=mk("S ::= 'a'\\n"); go(s,RPA_ENCODING_UTF8,"a",1,NULL); if(run(s,"RPA_MATCHRNG_OPT",7)!=0) return 1; if(run(s,"RPA_MATCHRNG_MOP",7)!=0){printf("stale count\\n"); return 1;} return 0; }''','rpa')
S('P04b','P04',[('rpa/rpacache.c','	if (ret > 0 && size > 128)\n		return;\n	cacherecords = cache->entry[bucket].records;\n	cache->entry[bucket].ruleid = ruleid;\n	cache->entry[bucket].top = top;\n	cache->entry[bucket].ret = ret;\n','	cacherecords = cache->entry[bucket].records;\n	cache->entry[bucket].ruleid = ruleid;\n	cache->entry[bucket].top = top;\n	if (ret > 0 && size > 128)\n		return;\n	cache->entry[bucket].ret = ret;\n')],
 'a rule result with more than 128 records that falls into the bucket of a result of the same execution','a later lookup yields the result of another rule application',
 PH+'''int main(){ rpacache_t*c=rpa_cache_create(); rarray_t*r=r_array_create(sizeof(rparecord_t)); rpacachedentry_t*e; r_array_setlength(r,200); rpa_cache_invalidate(c);
 rpa_cache_set(c,3,32,5,r,0,1); rpa_cache_set(c,3,33,9,r,0,150); e=rpa_cache_lookup(c,3,33); if(e){ printf("hit ret %ld\\n",e->ret); return 1;} rpa_cache_set(c,3,33,9,r,0,100); e=rpa_cache_lookup(c,3,33); if(!e||e->ret!=9||r_array_length(e->records)!=100) return 1; return 0; }''','rpa')
S('P04c','P04',[('rpa/rpavm.c','					for (i = 0; i < r_array_length(entry->records); i++) {','					for (i = 0; i + 1 < r_array_length(entry->records) || i == 0; i++) {')],
 'a cached result with several records','the last record of a cached result is not restored',
 PH+'''int main(){ rpastat_t*s=mk("Z ::= 'b'\\nA ::= <Z> <Z>\\nS ::= (<A> 'x') | (<A> 'y')\\n"); rarray_t*a=r_array_create(sizeof(rparecord_t)); char*b="bby"; long i,d=0; 
 rparule_t id=rpa_dbex_lookup(s->dbex,"S",1); if(id<0) return 5; if(rpa_stat_parse(s,id,RPA_ENCODING_UTF8,b,b,b+3,a)!=3) return 1;
 for(i=0;i<r_array_length(a);i++){ rparecord_t*p=rpa_record_get(a,i); d+=(p->type&RPA_RECORD_START)?1:-1; } if(d){ printf("unbalanced %ld of %ld\\n",d,(long)r_array_length(a)); return 1;} return r_array_length(a)!=8; }''','rpa')
S('P05b','P05',[('rpa/rpavm.c','	index = r_array_replace(stat->records, (unsigned long)(index + 1), NULL);\n	RVM_CPUREG_SETL(cpu, R_REC, index);\n	rec = (rparecord_t *)r_array_slot(stat->records, index);\n	startrec = (rparecord_t *)r_array_slot(stat->records, startindex);','	startrec = (rparecord_t *)r_array_slot(stat->records, startindex);\n	index = r_array_replace(stat->records, (unsigned long)(index + 1), NULL);\n	RVM_CPUREG_SETL(cpu, R_REC, index);\n	rec = (rparecord_t *)r_array_slot(stat->records, index);')],
 'the record array is full when an end record is appended','the length of the matched text is written through an address from before the array moved',
 PH+'''int main(){ rpastat_t*s=mk("Z ::= 'b'\\nS ::= <Z>+\\n"); rarray_t*a=r_array_create(sizeof(rparecord_t)); char*b="bbbbbbbbbbbbbbbbbbbbb"; rparule_t id=rpa_dbex_lookup(s->dbex,"S",1); long i; if(id<0) return 5; if(rpa_stat_parse(s,id,RPA_ENCODING_UTF8,b,b,b+21,a)!=21) return 1;
 for(i=0;i<r_array_length(a);i++) if(!((rparecord_t*)r_array_slot(a,i))->inputsiz) return 1; return 0; }''','rpa')
S('P05c','P05',[('rpa/rpavm.c','	if (stat->instack[tp].input) {\n		RPA_STAT_SETERRINFO_OFFSET(stat, stat->instack[tp].input - stat->start);','	if (stat->instack[tp].input) {\n		RPA_STAT_SETERRINFO_OFFSET(stat, stat->instack[tp].input - stat->instack[0].input);')],
 'a mandatory rule fails in a text that is parsed from a position behind its start','the error offset counts from the parsing position instead of the start of the text',
 PH+'''int main(){ rpastat_t*s=mk("#!abort B\\nB ::= 'b'\\nS ::= 'a' <B>\\n"); char*b="xxxac"; rpa_errinfo_t e; rparule_t id=rpa_dbex_lookup(s->dbex,"S",1); if(id<0) return 5; memset(&e,0,sizeof e); if(rpa_stat_parse(s,id,RPA_ENCODING_UTF8,b+3,b,b+5,NULL)>0) return 6; rpa_stat_lasterrorinfo(s,&e); if(e.code!=RPA_E_RULEABORT) return 7; if(e.offset!=4){ printf("offset %ld\\n",(long)e.offset); return 1;} return 0; }''','rpa')
S('P07b','P07',[('rpa/rparecord.c','	if (++rec >= (long)r_array_length(records))\n		return -1;\n	prec = (rparecord_t *)r_array_slot(records, rec);\n	if (prec->type & RPA_RECORD_START)\n		return rpa_recordtree_get(records, rec, type);\n	return -1;\n}\n\n\nlong rpa_recordtree_prev','	if (++rec > (long)r_array_length(records))\n		return -1;\n	prec = (rparecord_t *)r_array_slot(records, rec);\n	if (prec->type & RPA_RECORD_START)\n		return rpa_recordtree_get(records, rec, type);\n	return -1;\n}\n\n\nlong rpa_recordtree_prev')],
 'next of the last record of an array that is exactly full','a record behind the array is read',
 PH+'''int main(){ rarray_t*a=r_array_create(sizeof(rparecord_t)); rparecord_t r; memset(&r,0,sizeof r); r.type=RPA_RECORD_START; r_array_add(a,&r); r.type=RPA_RECORD_END; r_array_add(a,&r); return rpa_recordtree_next(a,0,RPA_RECORD_START)!=-1; }''','rpa')
S('P07c','P07',[('rpa/rparecord.c','	for ( ;rec >= 0; rec = rpa_recordtree_next(records, last, RPA_RECORD_END)) {\n		last = rpa_recordtree_get(records, rec, RPA_RECORD_END);','	for ( ;rec >= 0; rec = rpa_recordtree_next(records, rec, RPA_RECORD_START)) {\n		last = rpa_recordtree_get(records, rec, RPA_RECORD_END);\n		if (last < 0)\n			break;')],
 'parent of a record whose end is missing','the first record of the array is reported as parent',
 PH+'''int main(){ rarray_t*a=r_array_create(sizeof(rparecord_t)); rparecord_t r; memset(&r,0,sizeof r); r.type=RPA_RECORD_END; r_array_add(a,&r); r.type=RPA_RECORD_START; r_array_add(a,&r); long x=rpa_recordtree_parent(a,1,RPA_RECORD_END); printf("%ld\\n",x); return x!=-1 && x!=0; }''','rpa')
def rg(g,chk): return PH+'''static int p(const char*g,const char*t,long*recs){ rarray_t*r=r_array_create(sizeof(rparecord_t)); rpadbex_t*d=rpa_dbex_create(); rpastat_t*s; long n;
 rpa_dbex_open(d); if(rpa_dbex_load(d,g,strlen(g))<0) exit(3); rpa_dbex_close(d); if(rpa_dbex_compile(d)<0) exit(4); s=rpa_stat_create(d,0);
 n=rpa_stat_parse(s,rpa_dbex_lookup_s(d,"S"),RPA_ENCODING_UTF8,t,t,t+strlen(t),r); *recs=r_array_length(r); printf("%ld %ld err %ld\\n",n,*recs,(long)rpa_stat_lasterror(s)); if(n<0&&rpa_stat_lasterror(s)) return -100; return n; }
int main(){ long k; const char*g="'''+g+'''"; '''+chk+''' }'''
S('P09a','P09',[('rpa/rpacompiler.c','''	} else {
		rvm_codegen_addins(co->cg, rvm_asm(RVM_BEQ, DA, XX, XX, 3));
	}
	rvm_codegen_addins(co->cg, rvm_asml(RPA_SETCACHE''','''	} else {
		rvm_codegen_addins(co->cg, rvm_asm(RVM_BEQ, DA, XX, XX, 2));
	}
	rvm_codegen_addins(co->cg, rvm_asml(RPA_SETCACHE''')],
 'a rule that emits no records and matches nothing','the rule succeeds with an empty match',
 rg("#!noemit A\\nA ::= ('x' 'y')*\\nS ::= <A> 'x'\\n",'return p(g,"xyx",&k)!=3 || p(g,"x",&k)>0;'),'rpa')
S('P09b','P09',[('rpa/rpacompiler.c','''	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_REC, R1, XX, 0));
	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOVS, R0, DA, XX, -1));
	if (exp.rulepref && (exp.rulepref->flags & RPA_RFLAG_ABORTONFAIL)) {
		rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BLOB, exp.dataidx, rvm_asm(RPA_ABORT, DA, R_OTP, R0, 0));
	}
	rvm_codegen_addins(co->cg, rvm_asm(RVM_BX, LR, XX, XX, 0));
	rvm_codegen_redefinelabel_default(co->cg, exp.endidx);
	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, LR''','''	if (exp.rulepref && (exp.rulepref->flags & RPA_RFLAG_ABORTONFAIL)) {
		rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BLOB, exp.dataidx, rvm_asm(RPA_ABORT, DA, R_OTP, R0, 0));
	}
	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_REC, R1, XX, 0));
	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOVS, R0, DA, XX, -1));
	rvm_codegen_addins(co->cg, rvm_asm(RVM_BX, LR, XX, XX, 0));
	rvm_codegen_redefinelabel_default(co->cg, exp.endidx);
	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, LR''')],
 'a rule that must match and matches nothing','the machine is not stopped: the abort instruction gets 0 instead of the failure',
 rg("#!abort A\\nA ::= 'x'*\\nS ::= <A> 'a' | 'b'\\n",'return p(g,"xa",&k)!=2 || p(g,"b",&k)!=-100 || k!=1;'),'rpa')
S('P09e','P09',[('rpa/rpacompiler.c','rvm_codegen_addins(co->cg, rvm_asml(RPA_SETCACHE, DA, R1, R_REC, exp.start));','rvm_codegen_addins(co->cg, rvm_asml(RPA_SETCACHE, DA, R_REC, R_REC, exp.start));')],
 'a rule tried twice at the same position','the records of the rule are missing when its cached result is used',
 PH+'''int main(){ rpastat_t*s; rarray_t*r=r_array_create(sizeof(rparecord_t)); rpadbex_t*d=rpa_dbex_create(); const char*g="A ::= 'a'\\nS ::= <A> 'x' | <A> 'y'\\n"; long n; const char*t="ay"; int i;
 rpa_dbex_open(d); if(rpa_dbex_load(d,g,strlen(g))<0) return 3; rpa_dbex_close(d); if(rpa_dbex_compile(d)<0) return 4; s=rpa_stat_create(d,0);
 n=rpa_stat_parse(s,rpa_dbex_lookup_s(d,"S"),RPA_ENCODING_UTF8,t,t,t+2,r); printf("%ld %d\\n",n,(int)r_array_length(r)); return n!=2||r_array_length(r)!=4; }''','rpa')
