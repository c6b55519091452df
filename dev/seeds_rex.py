XH='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "rlib/rmem.h"
#include "rex/rexregex.h"
#include "rex/rexdb.h"
#include "rex/rexdfa.h"
#include "rex/rexcompiler.h"
#include "rex/rexfragment.h"
static int mt(const char*re,const char*in,long n,int enc){ char*b=malloc(n?n:1); int k; rexregex_t*r=rex_regex_create(re,strlen(re)); if(!r) exit(9); memcpy(b,in,n); k=rex_regex_match(r,enc,b,b+n); rex_regex_destroy(r); free(b); return k;}
static int sc(const char*re,const char*in,long n,int enc,long*at){ char*b=malloc(n?n:1); const char*w=0; int k; rexregex_t*r=rex_regex_create(re,strlen(re)); if(!r) exit(9); memcpy(b,in,n); k=rex_regex_scan(r,enc,b,b+n,&w); *at=w?w-b:-1; rex_regex_destroy(r); free(b); return k;}
static rexdb_t *dfa(const char**re,int n){ rexdb_t*x=rex_db_create(REXDB_TYPE_NFA); long s=-1; int i; for(i=0;i<n;i++) s=rex_db_addexpression_s(x,s,re[i],(rexuserdata_t)(long)(i+1)); return rex_db_createdfa(x,s); }
'''
S('X02b','X02',[('rex/rexdfaconv.c','		rex_dfaconv_uniquerange_insertvalue(co->ranges, t->highin + 1);','		if (t->highin != t->lowin || i + 1 == r_array_length(src))\n			rex_dfaconv_uniquerange_insertvalue(co->ranges, t->highin + 1);')],
 'an expression with two different single characters from the same state, not next to each other','behind a single character no cut is made: characters between two are treated like the first',
 XH+'''int main(){ if(mt("a|c","a",1,REX_ENCODING_UTF8)!=1) return 1; if(mt("[abc]x|b","bx",2,REX_ENCODING_UTF8)!=2) return 1; if(mt("a|[c-e]","b",1,REX_ENCODING_UTF8)>0) return 1; if(mt("ax|[a-c]y","by",2,REX_ENCODING_UTF8)!=2){printf("by not matched\\n");return 1;} if(mt("ax|[a-c]y","bx",2,REX_ENCODING_UTF8)==2) return 1; return 0; }''','rex')
S('X02c','X02',[('rex/rexdfaconv.c','	for (i = 0; i < r_array_length(dest); i++) {\n		uid = rex_subset_index(dest, i);\n		rex_dfaconv_unmark(co, uid);\n	}','	for (i = 0; i < r_array_length(src); i++) {\n		uid = rex_subset_index(src, i);\n		rex_dfaconv_unmark(co, uid);\n	}')],
 'a state reached over empty transitions from two different sets','marks stay behind: later closures leave out states','''''' + XH+'''int main(){ if(mt("(ab)*c","ababc",5,REX_ENCODING_UTF8)!=5) return 1; return 0; }''','rex')
S('X02d','X02',[('rex/rexdfaconv.c','			if ((c1 >= t->lowin && c2 <= t->highin)) {\n				rex_subset_addnewsubstate(moveset, t->dstuid);','			if ((c1 >= t->lowin && c2 <= t->highin)) {\n				if (r_array_length(moveset) && rex_subset_index(moveset, r_array_length(moveset) - 1) > t->dstuid)\n					continue;\n				rex_subset_addnewsubstate(moveset, t->dstuid);')],
 'two transitions on the same character of which the second leads to an older state','a target is left out of the set', XH+'''int main(){ return mt("(a|b)*abb","aababb",6,REX_ENCODING_UTF8)!=6 || mt("((a|ab)c)*abd","abcabd",6,REX_ENCODING_UTF8)!=6 || mt("(a*b|a*)*ac","aabaac",6,REX_ENCODING_UTF8)!=6; }''','rex')
S('X04b','X04',[('rex/rextransition.c','			if (itrans->highin != REX_CHAR_MAX && jtrans->lowin == itrans->highin + 1) {\n				/*\n				 * Adjacent regions\n				 * Merge jtrans into itrans and delete jtrans.\n				 */\n				itrans->highin = jtrans->highin;\n				r_array_delete(trans, j);\n				goto startover;','			if (itrans->highin != REX_CHAR_MAX && jtrans->lowin == itrans->highin + 1) {\n				/*\n				 * Adjacent regions\n				 * Merge jtrans into itrans and delete jtrans.\n				 */\n				itrans->highin = jtrans->highin;\n				r_array_delete(trans, j);\n				break;')],
 'normalizing three transitions of which the merged one touches a third that stands before it','transitions that touch are left unmerged',
 XH+'''#include "rex/rextransition.h"
int main(){ rarray_t*t=r_array_create(sizeof(rex_transition_t)); rex_transitions_add(t,'a','b',1,2); rex_transitions_add(t,'c','d',1,2); rex_transitions_add(t,'e','f',1,2); rex_transitions_normalize(t); printf("%ld\\n",(long)r_array_length(t)); return r_array_length(t)!=1; }''','rex')
S('X04c','X04',[('rex/rextransition.c','	if (c1 < c2) {\n		ntrans.lowin = c1;','	if ((int)(c1 - c2) < 0) {\n		ntrans.lowin = c1;')],
 'a transition whose bounds are 2^31 or more apart','the bounds are exchanged',
 XH+'''#include "rex/rextransition.h"
int main(){ rarray_t*t=r_array_create(sizeof(rex_transition_t)); rex_transition_t*x=rex_transitions_add(t,0,REX_CHAR_MAX,1,2); if(x->lowin!=0||x->highin!=REX_CHAR_MAX){printf("%u %u\\n",x->lowin,x->highin);return 1;} x=rex_transitions_add(t,7,3,1,2); return x->lowin!=3; }''','rex')
S('X05b','X05',[('rex/rexfragment.c','	rex_state_addtransition_e(state2, -1);\n	rex_state_addtransition_e(state2, REX_FRAG_STATEUID(frag1));\n	frag1->sstate = state2;\n	rex_fragment_state_add_dangling(frag1, state2);','	if (!r_array_length(frag1->sstate->etrans)) {\n		rex_state_addtransition_e(state2, -1);\n		rex_state_addtransition_e(state2, REX_FRAG_STATEUID(frag1));\n	} else {\n		rex_state_addtransition_e(state2, REX_FRAG_STATEUID(frag1));\n	}\n	frag1->sstate = state2;\n	rex_fragment_state_add_dangling(frag1, state2);')],
 'an optional alternative','the way round the optional part is missing',
 XH+'''int main(){ if(mt("xa?y","xy",2,REX_ENCODING_UTF8)!=2) return 1; if(mt("x(a|b)?y","xy",2,REX_ENCODING_UTF8)!=2){printf("xy\\n");return 1;} return mt("x(a|b)?y","xby",3,REX_ENCODING_UTF8)!=3; }''','rex')
S('X05c','X05',[('rex/rexfragment.c','	for (i = 0; i < r_array_length(src); i++) {\n		t = r_array_index(src, i, rex_transition_t *);\n		r_array_add(dest, &t);','	for (i = 0; i < r_array_length(src); i++) {\n		t = r_array_index(src, i, rex_transition_t *);\n		if (r_array_length(dest) < 8)\n			r_array_add(dest, &t);')],
 'an alternative with more than eight ways out','the ways out of the last alternatives lead nowhere',
 XH+'''int main(){ return mt("(a|b|c|d|e|f)x","fx",2,REX_ENCODING_UTF8)!=2 || mt("(a|b|c|d|e|f|g|h|i|j|k|l)x","ax",2,REX_ENCODING_UTF8)!=2 || mt("(a|b|c|d|e|f|g|h|i|j|k|l)x","lx",2,REX_ENCODING_UTF8)!=2; }''','rex')

BR=XH+"""static int brute(const char*re,const char*in,long n,int enc){ long i,k=0,e=-1; const char*w=0; char*b=malloc(n); memcpy(b,in,n); rexregex_t*r=rex_regex_create(re,strlen(re)); if(!r) exit(9);
 for(i=0;i<n;i++){ if(enc==REX_ENCODING_UTF8&&(in[i]&0xc0)==0x80) continue; k=rex_regex_match(r,enc,b+i,b+n); if(k>0){e=i;break;} }
 long k2=rex_regex_scan(r,enc,b,b+n,&w); int bad= k2!=(k>0?k:0) || (k>0 && w-b!=e); if(bad) printf("%s: %ld at %ld, want %ld at %ld\\n",re,k2,w?(long)(w-b):-1L,k,e); rex_regex_destroy(r); free(b); return bad; }
"""
S('X03b','X03',[('rex/rexregex.c','nextshift < end && ((unsigned char)*nextshift) < 0x80 && ((unsigned char)*input) < 0x80) {','nextshift < end && ((unsigned char)*nextshift) < 0x80) {')],
 'a text with a multi-byte character that is passed over by the prefilter','the position and the prefilter window run apart: a match is missed',
 BR+"""int main(){ return brute("abc","xx\\xc3\\xa9xxxabcx",11,REX_ENCODING_UTF8)||brute("abc","\\xe2\\x82\\xac""xyabc",8,REX_ENCODING_UTF8)||brute("abc","xxxxxabc",8,REX_ENCODING_UTF8)||brute("abcd","\\xe2\\x82\\xac""xyzabcd",10,REX_ENCODING_UTF8)||brute("a","\\xe2\\x82\\xac""yyyyya",9,REX_ENCODING_UTF8); }""",'rex')
S('X03c','X03',[('rex/rexdfa.c','(in - t->lowin) < hbits_size; in++) {','(in - t->lowin) < mask; in++) {')],
 'a range of at least 32 characters met at its 32nd','the prefilter has no bit for one of the characters: a match is missed',
 BR+"""int main(){ char re[]="[!-~]bc",in[4]; int c; for(c='!';c<='~';c++){ in[0]=c;in[1]='b';in[2]='c'; if(brute(re,in,3,REX_ENCODING_BYTE)||brute(re,in,3,REX_ENCODING_UTF8)) return 1;} return 0; }""",'rex')
S('X03d','X03',[('rex/rexregex.c','	while (input < end) {\n		wc = (unsigned char)*input;\n','	while (input < end) {\n		wc = *input;\n')],
 'matching bytes above 127','a byte above 127 is taken for a character near 2^32',
 BR+"""int main(){ rexregex_t*r=rex_regex_create_s("[\\xc2\\x80-\\xc3\\xbf]x"); char*b="\\xe9x"; int k=rex_regex_match(r,REX_ENCODING_BYTE,b,b+2); printf("%d\\n",k); return k!=2; }""",'rex')
S('X03e','X03',[('rex/rexregex.c','			if (nextshift < end) {\n				shifter <<= REX_REGEX_HASHBITS;\n				shifter |= (((unsigned char)*nextshift) & ((1 << REX_REGEX_HASHBITS) - 1));\n				shifter = (shifter & REX_DFA_HASHMASK(REX_REGEX_HASHBYTES, REX_REGEX_HASHBITS));\n				nextshift += 1;\n			} else {\n				REX_GREP_SHIFT_BYTE(shifter, 1,','			if (nextshift < end) {\n				shifter <<= REX_REGEX_HASHBITS;\n				shifter |= (((unsigned char)*nextshift) & ((1 << REX_REGEX_HASHBITS) - 1));\n				shifter = (shifter & REX_DFA_HASHMASK(REX_REGEX_HASHBYTES, REX_REGEX_HASHBITS));\n				nextshift += 1;\n			} else if (nextshift > input) {\n				REX_GREP_SHIFT_BYTE(shifter, 1,')],
 'a one-character match as the last byte, after positions that passed the prefilter without matching','at the end of the input the window is not shifted on',
 BR+"""int main(){ int i,j,k; char b[8]; const char*res[]={"a","ab","aab","b|aac","abc","c"}; for(i=0;i<6;i++) for(j=0;j<243;j++){ int t=j; for(k=0;k<5;k++){ b[k]="abc"[t%3]; t/=3; } for(k=1;k<=5;k++) if(brute(res[i],b+5-k,k,REX_ENCODING_BYTE)) return 1; } return 0; }""",'rex')
S('X01b','X01',[('rex/rexdb.c','			dfa->substates[s->substates + i].type = substate->ss_type;\n			dfa->substates[s->substates + i].userdata = substate->ss_userdata;','			dfa->substates[s->substates + i].type = substate->ss_type;\n			if (substate->ss_type == REX_STATETYPE_ACCEPT)\n				dfa->substates[s->substates + i].userdata = substate->ss_userdata;')],
 'a table with sub-states of an automaton whose non-accepting states carry user data','the user data of non-accepting sub-states is lost',
 XH+"""int main(){ rexdb_t*x=rex_db_create(REXDB_TYPE_NFA),*d; rexdfa_t*f; rexuint_t i,j,n=0; long s=rex_db_addexpression_s(x,-1,"ab",(rexuserdata_t)1); size_t k; for(k=0;k<r_array_length(x->states);k++) rex_db_getstate(x,k)->userdata=(rexuserdata_t)(long)(k+10); d=rex_db_createdfa(x,s); f=rex_db_todfa(d,1); for(i=0;i<f->nsubstates;i++) if(f->substates[i].userdata!=(rexuserdata_t)(f->substates[i].uid+10)) n++; printf("%u wrong of %u\\n",(int)n,(int)f->nsubstates); return n||!f->nsubstates; }""",'rex')
S('X01c','X01',[('rex/rexdb.c','	ctx->naccsubstates += s->naccsubstates;\n','	if (s->type == REX_STATETYPE_ACCEPT && s->naccsubstates)\n		ctx->naccsubstates += 1;\n')],
 'two expressions that accept the same text','the accepting sub-states of later states overwrite those of earlier ones',
 XH+"""int main(){ const char*re[]={"ab","a[b-c]","[a-z]b","[x-z]c"}; rexdb_t*d=dfa(re,4); rexdfa_t*f=rex_db_todfa(d,0); rexuint_t s,k; long sum=0; s=rex_dfa_next(f,REX_DFA_STARTSTATE,'a'); s=rex_dfa_next(f,s,'b'); if(f->states[s].naccsubstates!=3) return 1; for(k=0;k<3;k++) sum+=(long)rex_dfa_accsubstate(f,s,k)->userdata; printf("%ld\\n",sum); return sum!=6; }""",'rex')
S('X04d','X04',[('rex/rextransition.c','	if (min > 0)\n		--min;\n	t = (rex_transition_t *)r_array_slot(trans, min);\n	if (c >= t->lowin && c <= t->highin)\n		return t;\n	return NULL;','	if (min > 0)\n		--min;\n	t = (rex_transition_t *)r_array_slot(trans, min);\n	if (c <= t->highin)\n		return t;\n	return NULL;')],
 'searching for a character below the first transition','the first transition is returned although it does not cover the character',
 XH+"""#include "rex/rextransition.h"
int main(){ rarray_t*t=r_array_create(sizeof(rex_transition_t)); rex_transitions_add(t,'c','d',1,2); rex_transitions_add(t,'x','z',1,2); if(!rex_transitions_find(t,'d')||!rex_transitions_find(t,'x')||rex_transitions_find(t,'e')) return 1; return rex_transitions_find(t,'a')!=NULL; }""",'rex')
S('X06a','X06',[('rex/rexcompiler.c','		if (co->fromcount == 0) {\n			frag = FPOP(co);\n			frag = rex_fragment_opt(rexdb, frag);','		if (co->fromcount == 0 && co->tocount > 2) {\n			frag = FPOP(co);\n			frag = rex_fragment_opt(rexdb, frag);')],
 'a counted repetition {0,1} or {0,2}','the first copy is no longer optional',
 XH+"""int main(){ return mt("xa{0,3}y","xy",2,REX_ENCODING_UTF8)!=2 || mt("xa{0,2}y","xy",2,REX_ENCODING_UTF8)!=2 || mt("xa{0,1}y","xay",3,REX_ENCODING_UTF8)!=3; }""",'rex')
S('X06b','X06',[('rex/rexcompiler.c','	if (negative) {\n		r_array_setlength(co->temptrans, 0);\n','	if (negative) {\n		if (srcstate->uid == 0)\n			r_array_setlength(co->temptrans, 0);\n')],
 'a second negated class in the same expression','it also covers what the first one covers',
 XH+"""int main(){ if(mt("[^ab]x","cx",2,REX_ENCODING_UTF8)!=2) return 1; if(mt("[^a][^b]","ca",2,REX_ENCODING_UTF8)!=2) return 1; return mt("[^a][^b]","cb",2,REX_ENCODING_UTF8)==2; }""",'rex')
S('X06c','X06',[('rex/rexcompiler.c','	while (FLEN(co)) {\n		rex_fragment_destroy(FPOP(co));\n	}\n	return -1;','	if (FLEN(co))\n		rex_fragment_destroy(FPOP(co));\n	return -1;')],
 'an expression that is refused inside nested parentheses','fragments of the refused expression stay on the stack',
 XH+"""#include <malloc.h>
static size_t one(int k){ while(k--){ rexcompiler_t*co=rex_compiler_create(); rexdb_t*x=rex_db_create(REXDB_TYPE_NFA); const char*e="a(b(c)]"; long r=rex_compiler_expression(co,x,e,strlen(e),0); if(r>=0||r_array_length(x->states)) exit(1); rex_compiler_destroy(co); rex_db_destroy(x); } return mallinfo2().uordblks; }
int main(){ size_t a=one(10),b=one(2000); printf("%ld %ld\\n",(long)a,(long)b); return b>a+16000; }""",'rex',san='')
S('X06d','X06',[('rex/rexcompiler.c','				if (co->tocount == (size_t)-1 && count >= co->fromcount) {\n					frag2 = rex_fragment_mop(rexdb, frag2);','				if (co->tocount == (size_t)-1 && count + 1 >= co->fromcount) {\n					frag2 = rex_fragment_mop(rexdb, frag2);')],
 'a counted repetition {n,} with n of at least two','one repetition less is accepted',
 XH+"""int main(){ return mt("(ab){2,}x","ababx",5,REX_ENCODING_UTF8)!=5 || mt("(ab){3,}x","ababx",5,REX_ENCODING_UTF8)==5 || mt("a{2,}x","ax",2,REX_ENCODING_UTF8)==2; }""",'rex')
