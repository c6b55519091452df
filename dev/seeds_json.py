JL='-I_build/rexjson -Irexjson rexjson/rexjson.c'
JH='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "rexjson.h"
static rexjson_t C; static rexjson_record_t *R; static int N;
static long p(const char*t,long n,int recs,int lv){ char*b=malloc(n); memcpy(b,t,n); free(R); N=recs; R=calloc(recs+1,sizeof(*R)); R=realloc(R,recs*sizeof(*R)); long r=rexjson_parse_buffer(&C,R,recs,b,n,lv); free(b); return r; }
static long q(const char*t,int recs,int lv){ return p(t,strlen(t),recs,lv); }
'''
S('J01a','J01',[('rexjson/rexjson.c','''			if (rexjson_parse_token(ctx, TOKEN_COMMA) < 0)
				return -1;
			if (rexjson_parse_value(ctx) < 0)
				return -1;''','''			if (rexjson_parse_token(ctx, TOKEN_COMMA) < 0)
				return -1;
			if (ctx->token_id == TOKEN_RIGHTSB)
				break;
			if (rexjson_parse_value(ctx) < 0)
				return -1;''')],
 'an array with a comma before its end','it is accepted',
 JH+'''int main(){ if(q("[1,2]",20,5)!=5||q("[]",20,5)!=2) return 1; return q("[1,2,]",20,5)>=0; }''',JL)
S('J01b','J01',[('rexjson/rexjson.c','''	begin->name = nameoffset;
	begin->namesize = namesize;
	if ((end''','''	begin->name = nameoffset;
	if ((end'''),('rexjson/rexjson.c','''	end->rectype = REXJSON_RECORD_END;
''','''	end->rectype = REXJSON_RECORD_END;
	begin->namesize = namesize;
''')],
 'the END record of a named value','the END record has no name',
 JH+'''int main(){ if(q("{\\"ab\\":[1]}",20,5)!=10) return 1; if(R[1].name!=1||R[1].namesize!=4) return 1; return R[4].rectype!=REXJSON_RECORD_END||R[4].name!=1||R[4].namesize!=4; }''',JL)
S('J01c','J01',[('rexjson/rexjson.c','''	case TOKEN_LEFTSB:
		if ((begin = rexjson_record_add''','''	case TOKEN_LEFTSB:
		if (ctx->levels == 0)
			ctx->levels = 1;
		if ((begin = rexjson_record_add''')],
 'an array at the last level that contains a value','the limit of levels is passed by one',
 JH+'''int main(){ if(q("[[1]]",20,3)!=5||q("[1]",20,1)>=0&&0) return 1; if(q("{\\"a\\":1}",20,1)>=0) return 1; return q("[1]",20,1)>=0||C.error!=REXJSON_E_MAXRECURSIONS; }''',JL)
S('J01d','J01',[('rexjson/rexjson.c','''	while (ctx->token_id == TOKEN_SPACE)
		rexjson_get_token(ctx);''','''	while (ctx->token_id == TOKEN_SPACE && ctx->offset < ctx->bufsize)
		rexjson_get_token(ctx);''')],
 'a text that ends with white space before the value is complete','the error is placed before the white space and the token seen is white space',
 JH+'''int main(){ if(q("[1 ,2 ] ",20,5)!=7) return 1; return q("[1,  ",20,5)>=0||rexjson_get_error_offset(&C)!=5; }''',JL)
S('J01e','J01',[('rexjson/rexjson.c','''	if (ctx->top >= ctx->stacksize) {''','''	if (ctx->top > ctx->stacksize - (rectype == REXJSON_RECORD_BEGIN)) {''')],
 'as many records as there is room for and then one END record more','a record is written beyond the end of the array',
 JH+'''int main(){ if(q("[1]",4,5)!=3) return 1; if(q("[1]",2,5)>=0||C.error!=REXJSON_E_NOMEM) return 1; return q("[1]",3,5)>=0||C.error!=REXJSON_E_NOMEM; }''',JL)
S('J02a','J02',[('rexjson/rexjson.c','''	if (rec_index < 0 || rec_index + 1 >= (ssize_t)recsize || recs''','''	if (rec_index < 0 || (size_t)rec_index > recsize - 1 || recs''')],
 'a BEGIN record that is the last of the array','a record beyond the end of the array is read',
 JH+'''int main(){ if(q("[1]",4,5)!=3) return 1; if(rexjson_recordtree_firstchild(R,4,0)!=1||rexjson_recordtree_firstchild(R,4,1)>=0) return 1; R=realloc(R,2*sizeof(*R)); return rexjson_recordtree_firstchild(R,2,1)>=0; }''',JL)
S('J02b','J02',[('rexjson/rexjson.c','''	if (rec_index < 0 || rec_index >= (ssize_t)recsize || recs[rec_index].rectype != REXJSON_RECORD_BEGIN)
		return -1;
	rec =''','''	if (rec_index < 0 || rec_index >= (ssize_t)recsize || recs[rec_index].rectype == REXJSON_RECORD_NONE)
		return -1;
	rec =''')],
 'asking for the sibling of an END record that is followed by nested values','a record inside of the next value is returned',
 JH+'''int main(){ if(q("[1,[[2]]]",20,5)!=9) return 1; if(rexjson_recordtree_next(R,10,1)!=3||rexjson_recordtree_next(R,10,3)>=0) return 1; long r=rexjson_recordtree_next(R,10,2); printf("%ld\\n",r); return r>=0; }''',JL)
JC = '-I_build/rexjson -Irexjson rexjson/rexjson++.cpp'
CH='''#include <iostream>
#include <cstdlib>
#include <new>
#include "rexjson++.h"
using namespace rexjson;
'''
CN='''static long live; void* operator new(size_t n){ live++; return malloc(n); } void operator delete(void*p) noexcept { if(p) live--; free(p); } void operator delete(void*p,size_t) noexcept { if(p) live--; free(p); }
'''
S('J03a','J03',[('rexjson/rexjson++.cpp','''	std::string *tmp = new std::string(unescape_str(v));

	destroy();
	value_type_ = str_type;
	store_.v_string_ = tmp;''','''	destroy();
	store_.v_string_ = new std::string(unescape_str(v));
	value_type_ = str_type;''')],
 'a value assigned the string of one of its own elements','the string is read after it was released',
 CH+'''int main(){ value v; v.read("[\\"abcdefghijklmnopqrstuvwxyz0123456789\\",2]"); v = v[(size_t)0].get_str(); return v.get_str() != "abcdefghijklmnopqrstuvwxyz0123456789"; }''',JC,cxx=True)
S('J03b','J03',[('rexjson/rexjson++.cpp','''	else if (get_type() == obj_type)
		delete store_.v_object_;''','''	else if (get_type() == obj_type && !store_.v_object_->empty())
		delete store_.v_object_;''')],
 'an empty object that is replaced or destroyed','its storage is lost',
 CH+CN+'''int main(){ for(int i=0;i<3;i++){ long n=live; { value v; v.read("{}"); v = 4; value w; w.read("{\\"a\\":1}"); w.read("[]"); } if(live!=n) return 1; } return 0; }''',JC,san='',cxx=True)
S('J03c','J03',[('rexjson/rexjson++.cpp','''	check_type(int_type);
	return static_cast<int64_t>(store_.v_int_);''','''	if (get_type() != bool_type)
		check_type(int_type);
	return static_cast<int64_t>(store_.v_int_);''')],
 'a boolean asked for its integer','bytes that were never set are handed out instead of an exception',
 CH+'''int main(){ value v(true); try { volatile long x = v.get_int64(); (void)x; return 1; } catch (std::exception&) {} value i(5); return i.get_int64() != 5 || i.get_real() != 5.0; }''',JC,cxx=True)
S('J03d','J03',[('rexjson/rexjson++.cpp','''	object *tmp = new object(v);

	destroy();
	value_type_ = obj_type;''','''	object *tmp = new object(v);

	if (get_type() != obj_type || store_.v_object_ != &v)
		destroy();
	value_type_ = obj_type;''')],
 'an object value assigned its own object','the old storage is lost',
 CH+CN+'''int main(){ for(int i=0;i<3;i++){ long n=live; { value v; v.read("{\\"a\\":1}"); v = v.get_obj(); if(v.write()!="{\\"a\\":1}") return 1; } if(live!=n) return 1; } return 0; }''',JC,san='',cxx=True)
CR='''#include "rexjson++.h"
#include <iostream>
#include <stdexcept>
#include <string>
using namespace rexjson;
static bool refused(const std::string& s, size_t n=32){ try { value v; v.read(s,n); return false; } catch (std::runtime_error&) { return true; } }
static bool is(const std::string& s, const std::string& w, size_t n=32){ try { value v; v.read(s,n); return v.write()==w; } catch (std::exception&) { return false; } }
'''
S('J04a','J04',[('rexjson/rexjson++.cpp','''			parse_token(TOKEN_COMMA);
			parse_namevalue(*parent.store_.v_object_);''','''			parse_token(TOKEN_COMMA);
			if (token_id_ != TOKEN_RIGHTCB)
				parse_namevalue(*parent.store_.v_object_);''')],
 'an object with a comma behind its last member','a text that is no JSON value is accepted',
 CR+'''int main(){ return !(is("{\\"a\\":1,\\"b\\":{}}","{\\"a\\":1,\\"b\\":{}}") && refused("{\\"a\\":1,}") && refused("[{\\"a\\":1,\\"b\\":2,}]") && refused("[1,]")); }''',JC,cxx=True)
S('J04b','J04',[('rexjson/rexjson++.cpp','''	default:
		parse_primitive(v);
		break;
	}
	++levels_;''','''	default:
		parse_primitive(v);
		if (token_id_ == TOKEN_RIGHTCB)
			return;
		break;
	}
	++levels_;''')],
 'many objects one after another, each ending with a plain value','a text nested two levels deep is refused for its depth',
 CR+'''int main(){ std::string s="["; for(int i=0;i<100;i++){ if(i) s+=","; s+="{\\"a\\":1}"; } s+="]"; return !(is(s,s,4) && refused("[[[[1]]]]",4) && is("[[[1]]]","[[[1]]]",4)); }''',JC,cxx=True)
S('J04c','J04',[('rexjson/rexjson++.cpp','''		v = (int64_t)strtoll(token_.c_str(), NULL, 10);''','''		v = (int64_t)strtod(token_.c_str(), NULL);''')],
 'an integer beyond 2^53','another integer is stored',
 CR+'''int main(){ return !(is("[9007199254740993,-9007199254740993,1]","[9007199254740993,-9007199254740993,1]")); }''',JC,cxx=True)
S('J04d','J04',[('rexjson/rexjson++.cpp','''	parse_value(v);
	parent[name] = value();
	parent[name].move(v);''','''	parse_value(v);
	if (!v.is_null())
		parent[name].move(v);''')],
 'a member that is null','the member is missing',
 CR+'''int main(){ value v; v.read("{\\"a\\":null,\\"b\\":1}"); if (v.get_obj().size()!=2) return 1; v.read("{\\"a\\":1,\\"a\\":null}"); return !v["a"].is_null(); }''',JC,cxx=True)

S('J05a','J05',[('rexjson/rexjson++.cpp','			else if (wc <= 0x07FF)','			else if (wc < 0x07FF)')],
 'an escape of the last character with a two-byte code','the character is encoded with a byte too many',
 CR+'''int main(){ value v; v="\\\\u07ff"; if (v.get_str()!="\\xdf\\xbf") return 1; v="\\\\u07fe\\\\u0800\\\\u007f"; return v.get_str()!="\\xdf\\xbe\\xe0\\xa0\\x80\\x7f"; }''',JC,cxx=True)
S('J05b','J05',[('rexjson/rexjson++.cpp',"		} else if (*it == '\\\\' && (it + 5) < s.end() && *(it + 1) == 'u') {","		} else if (*it == '\\\\' && (it + 6) < s.end() && *(it + 1) == 'u') {")],
 'an escape at the very end of a string','it is kept as text',
 CR+'''int main(){ value v; v="\\\\u0041b"; if (v.get_str()!="Ab") return 1; v="b\\\\u0041"; return v.get_str()!="bA"; }''',JC,cxx=True)
S('J05c','J05',[('rexjson/rexjson++.cpp','			os << "\\\\r";','			os << "\\\\n";')],
 'a string with a carriage return','another character is written',
 CR+'''int main(){ value v("a"); v=std::string("a\\rb"); value w; w.read(v.write()); return w.get_str()!=v.get_str(); }''',JC,cxx=True)
S('J06a','J06',[('rexjson/rexjson++.cpp','			if (elems) {','			if (it != v.get_obj().begin()) {')],
 'an object whose first member is null, written without null members','a comma stands before the first member',
 CR+'''int main(){ value v; v.read("{\\"a\\":null,\\"b\\":1}"); if (v.write()!="{\\"a\\":null,\\"b\\":1}") return 1; return v.write(false,false)!="{\\"b\\":1}"; }''',JC,cxx=True)
S('J06b','J06',[('rexjson/rexjson++.cpp',"		os << v.get_int64();\n	} else if (v.value_type_ == real_type) {\n		if","		os << v.get_int();\n	} else if (v.value_type_ == real_type) {\n		if")],
 'an integer beyond 32 bits','another number is written',
 CR+'''int main(){ value v; v.read("[1,-5]"); if (v.write()!="[1,-5]") return 1; v.read("[4294967297]"); return v.write()!="[4294967297]"; }''',JC,cxx=True)
S('J06c','J06',[('rexjson/rexjson++.cpp',"			if (it != v.get_array().begin()) {","			if (it != v.get_array().begin() && !(it - 1)->is_null()) {")],
 'an array with an element that is null','a comma is missing',
 CR+'''int main(){ value v; v.read("[1,2,3]"); if (v.write()!="[1,2,3]") return 1; v.read("[1,null,3]"); return v.write()!="[1,null,3]"; }''',JC,cxx=True)
JT='''static int acc(const char*s){ int n=(int)strlen(s); return q(s,20,5)==n; }
'''
JX='rexjson/rexjsondfa.rexcc'
S('J08a','J08',[(JX,'([^"\\\\#0x0-#0x1F]|','([^"\\\\#0x0-#0x1E]|')],
 'a string with the control character 0x1f','it is accepted as a string',
 JH+JT+'''int main(){ if(!acc("[\\"a\\\\u001f\\"]")||acc("[\\"\\x1e\\"]")) return 1; return acc("[\\"a\\x1f\\"]"); }''',JL)
S('J08b','J08',[(JX,'u[0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F]','u[0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-zA-F]')],
 'an escaped character whose last digit is no hexadecimal digit but a small letter','it is accepted as a string',
 JH+JT+'''int main(){ if(!acc("[\\"\\\\u00ef\\"]")||acc("[\\"\\\\u00zf\\"]")) return 1; return acc("[\\"\\\\u00ez\\"]"); }''',JL)
S('J08c','J08',[(JX,'([eE][+\\-]?[0-9]+)?','([eE][+\\-]?[1-9][0-9]*)?')],
 'a number whose exponent starts with 0','it is no number',
 JH+JT+'''int main(){ if(!acc("[1.5e+10,2E-3]")) return 1; return !acc("[1e-07]"); }''',JL)
S('J08d','J08',[(JX,'TOKEN_INT           -?[0-9]|-?[1-9][0-9]+','TOKEN_INT           -?[0-9]|[1-9][0-9]+')],
 'a negative integer of more than one digit','it is a number with a fraction',
 JH+JT+'''int main(){ if(!acc("[-12]")||!acc("[12,-1]")||R[1].valtype!=REXJSON_VALUE_INT||R[3].valtype!=REXJSON_VALUE_INT) return 1; q("[-12]",20,5); return R[1].valtype!=REXJSON_VALUE_INT; }''',JL)
JP='-I_build/rexjson -Irexjson rexjsonrpc/property.cpp rexjson/rexjson++.cpp -fsanitize=address -fno-sanitize-recover=all'
CP='''#include <string>
#include <vector>
#include <map>
#include <stdexcept>
#include <cstdio>
#include "rexjsonrpc/property.h"
using namespace rexjson;
template<class F> static bool throws(F f){ try { f(); } catch (std::exception&) { return true; } return false; }
'''
S('J07a','J07',[('rexjsonrpc/property.h','''			base::set_prop_impl(base::propaddr_ + i, v);
			++i;
		}
		base::modified_hook_(base::ctx_);''','''			base::set_prop_impl(base::propaddr_ + i, v);
			if (++i == size_)
				base::modified_hook_(base::ctx_);
		}''')],
 'an array shorter than the range','the modified hook is not called though elements were changed',
 CP+'''int main(){ int x[3]={1,2,3}; int n=0; int c=0; property p(x,3,property_access::readwrite,[](const value&){},[&](void*q){ if(q==&c) n++; },&c); array a; a.push_back(value((int64_t)7)); p.set_prop(value(a)); return !(n==1 && x[0]==7 && x[1]==2); }''',JP,cxx=True)
S('J07b','J07',[('rexjsonrpc/property.h','''		return new property_range(base::propaddr_, size_, base::access_, base::check_hook_, base::modified_hook_, base::ctx_);''','''		return new property_object<T>(base::propaddr_, base::access_, base::check_hook_, base::modified_hook_, base::ctx_);''')],
 'a copy of a property that stands for a range','the copy stands for the first element only',
 CP+'''int main(){ int x[3]={1,2,3}; property p(x,3); property q(p); return !(p.get_prop().get_type()==array_type && q.get_prop().get_type()==array_type && q.get_prop().get_array().size()==3); }''',JP,cxx=True)
S('J07c','J07',[('rexjsonrpc/property.h','''		size_t idx = atol(name.c_str());
		if (idx >= array_.size())
			throw''','''		int idx = atoi(name.c_str());
		if (idx >= (int)array_.size())
			throw''')],
 'a negative index','a property in front of the array is handed out',
 CP+'''int main(){ int x=1,y=2; property p(property_array({property(&x),property(&y)})); return !(p.operator[](std::string("1")).get_prop().get_int()==2 && throws([&]{ p.operator[](std::string("2")); }) && throws([&]{ p.operator[](std::string("-1")); })); }''',JP,cxx=True)
S('J07d','J07',[('rexjsonrpc/property.h','''		} else if (val.get_type() == rexjson::real_type) {
			*prop = (U)val.get_real();
		} else if''','''		} else if (val.get_type() == rexjson::real_type) {
			*prop = (U)(float)val.get_real();
		} else if''')],
 'a large real number set in an integer variable','the variable gets another value',
 CP+'''int main(){ int x=0; property p(&x); p.set_prop(value(16777217.0)); return !(x==16777217); }''',JP,cxx=True)
S('J07e','J07',[('rexjsonrpc/property.cpp','''	object_ = v.object_;
	v.object_ = nullptr;''','''	object_ = nullptr;
	if (v.object_)
		object_ = v.object_->duplicate();'''),],
 'a property moved','the source still stands for the variable',
 CP+'''int main(){ int x=0; property p(&x); property q(std::move(p)); return !(q.get_prop().get_int()==0 && throws([&]{ p.get_prop(); })); }''',JP,cxx=True)
S('J07f','J07',[('rexjsonrpc/property.h','''		check_hook_(val);
		*propaddr_ = val.get_bool();
		modified_hook_(ctx_);''','''		bool old = *propaddr_;
		*propaddr_ = val.get_bool();
		try {
			check_hook_(val);
		} catch (...) {
			*propaddr_ = old;
			throw;
		}
		modified_hook_(ctx_);''')],
 'a check hook that looks at the variable','the variable has the new value before it is checked',
 CP+'''int main(){ bool x=false; bool seen=true; property p(&x,property_access::readwrite,[&](const value&){ seen=x; },[](void*){}); p.set_prop(value(true)); return !(x && !seen); }''',JP,cxx=True)
JQ='-I_build/rexjson -Irexjson rexjson/rexjson++.cpp -fsanitize=address -fno-sanitize-recover=all'
CQ='''#include <string>
#include <vector>
#include <map>
#include <array>
#include <tuple>
#include <stdexcept>
#include <cstdio>
#include "rexjsonrpc/rpcserver.h"
using namespace rexjson;
struct srv : rpc_server<srv> {
  value echo(array& p, rpc_exec_mode mode) { return value(p); }
  value fail(array& p, rpc_exec_mode mode) { throw std::runtime_error("went wrong"); }
  value modeof(array& p, rpc_exec_mode mode) { return value((int)mode); }
  srv() { add("echo", &srv::echo); add("fail", &srv::fail); add("mode", &srv::modeof); }
};
static std::string ask(const char *q, rpc_exec_mode m = execute){ try { srv s; return s.call(std::string(q), m).write(false); } catch (...) { return "thrown"; } }
static bool has(const std::string& s, const char *w){ return s.find(w) != std::string::npos; }
'''
S('J09a','J09',[('rexjsonrpc/rpcserver.h','''				throw create_rpc_error(RPC_INVALID_REQUEST, "missing method");
			result = call_method_name(method_it->second, params, mode);''','''				throw create_rpc_error(RPC_INVALID_REQUEST, "missing method");
			if (!id.is_null())
				result = call_method_name(method_it->second, params, mode);
			else
				call_method_name(method_it->second, params, mode);''')],
 'a request without id','the result of the method is not in the answer',
 CQ+'''int main(){ return !(has(ask("{\\"method\\":\\"echo\\",\\"params\\":[7],\\"id\\":1}"),"[7]") && has(ask("{\\"method\\":\\"echo\\",\\"params\\":[7]}"),"[7]")); }''',JQ,cxx=True)
S('J09b','J09',[('rexjsonrpc/rpcserver.h','''		} catch (std::exception& e) {
			rexjson::object errobj;
			errobj["message"] = e.what();
			errobj["code"] = RPC_MISC_ERROR;
			error = errobj;
		}
		ret["result"] = result;
		ret["id"] = id;
		ret["error"] = error;
		return ret;
	}

	rexjson::value call(const std::string& name''','''		} catch (std::exception& e) {
			rexjson::object errobj;
			errobj["message"] = e.what();
			errobj["code"] = RPC_MISC_ERROR;
			error = errobj;
			result = error["message"];
		}
		ret["result"] = result;
		ret["id"] = id;
		ret["error"] = error;
		return ret;
	}

	rexjson::value call(const std::string& name''')],
 'a method that throws a std::exception','the answer has a result although the method failed',
 CQ+'''int main(){ srv s; value a=s.call(std::string("{\\"method\\":\\"fail\\",\\"id\\":1}")); return !(a.get_obj()["result"].is_null() && has(a.write(false),"went wrong")); }''',JQ,cxx=True)
S('J09c','J09',[('rexjsonrpc/rpcserver.h','''			val.read(request);
			return call(val, mode);''','''			val.read(request);
			return call(val);''')],
 'a request as text in another mode than execute','the method is executed where only its specification was asked for',
 CQ+'''int main(){ return !(has(ask("{\\"method\\":\\"mode\\",\\"id\\":1}"),"\\"result\\":0") && has(ask("{\\"method\\":\\"mode\\",\\"id\\":1}",spec),"\\"result\\":1")); }''',JQ,cxx=True)
S('J09d','J09',[('rexjsonrpc/rpcserver.h','''			if (params_it != val.get_obj().end() && params_it->second.type() != rexjson::array_type)
				throw''','''			if (params_it != val.get_obj().end() && params_it->second.type() == rexjson::obj_type)
				throw''')],
 'params that are a string or number','the request is refused with another code',
 CQ+'''int main(){ return !(has(ask("{\\"method\\":\\"echo\\",\\"params\\":{},\\"id\\":1}"),"-32600") && has(ask("{\\"method\\":\\"echo\\",\\"params\\":\\"x\\",\\"id\\":1}"),"-32600")); }''',JQ,cxx=True)
S('J09e','J09',[('rexjsonrpc/rpcserver.h','''		map_[name] = method;''','''		map_.insert(std::make_pair(name, method));''')],
 'a method added under a name that is in use','the earlier method stays',
 CQ+'''int main(){ srv s; s.add("echo",[](array&,rpc_exec_mode)->value{ return value("new"); }); return !has(s.call(std::string("{\\"method\\":\\"echo\\",\\"id\\":1}")).write(false),"new"); }''',JQ,cxx=True)
