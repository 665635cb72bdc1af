# Makes sim/simd/src/grammar.json from the grammar of tree-sitter-sfapex (development only; the result is committed).
import json,re
g=json.load(open('/root/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/tree-sitter-sfapex-2.4.0/apex/src/grammar.json'))
R=g['rules']
kw=re.compile(r'^(\[[^\]]+\])+$')
res=set()
def pat(v):
    if kw.match(v) and not v.startswith('[0') :
        cs=re.findall(r'\[([^\]]+)\]',v)
        if all(len(c)==2 and c[0].lower()==c[1].lower() or c in('99','00','__','..') for c in cs):
            return 'k:'+''.join(c[0] for c in cs)
    res.add(v); return 'r:'+v
def conv(r):
    t=r['type']
    if t=='SYMBOL': return 'n:'+r['name']
    if t=='STRING': return 'l:'+r['value']
    if t=='PATTERN': return pat(r['value'])
    if t=='BLANK': return ['s']
    if t=='SEQ': return ['s']+[conv(m) for m in r['members']]
    if t=='CHOICE': return ['a']+[conv(m) for m in r['members']]
    if t=='REPEAT': return ['*',conv(r['content'])]
    if t=='REPEAT1': return ['+',conv(r['content'])]
    if t=='TOKEN':
        c=conv(r['content'])
        return c if isinstance(c,str) else ['t',c]
    return conv(r['content'])
out={n:conv(r) for n,r in R.items()}
s='{\n'+',\n'.join(json.dumps(n)+':'+json.dumps(x,separators=(',',':')) for n,x in out.items())+'\n}\n'
open('grammar.json','w').write(s)
print(len(s)); print(sorted(res))
out['explicit_constructor_invocation']=["s",["a","n:this","n:super"],"n:argument_list","l:;"]
out['method_invocation']=["s",["a","n:identifier",["s",["a","n:primary_expression","n:super"],"n:_property_navigation","n:identifier"]],"n:argument_list"]
out['object_creation_expression']=["s","k:new","n:_simple_type","n:argument_list",["a","n:class_body",["s"]]]
out['break_statement']=["s","k:break","l:;"]
out['continue_statement']=["s","k:continue","l:;"]
out['scoped_type_identifier']=["s",["a","n:identifier","n:scoped_type_identifier","n:generic_type"],"l:.","n:identifier"]
out['_element_value']=["a","n:string_literal","n:boolean","n:int","n:identifier"]
out['annotation']=["s","l:@","n:identifier",["a","n:annotation_argument_list",["s"]]]
out['annotation_argument_list']=["s","l:(",["a","n:_element_value",["+","n:annotation_key_value"]],"l:)"]
out['_method_header']=["s","n:_unannotated_type","n:_method_declarator"]
out['parser_output']=["*","n:declaration"]
out['statement']=[x for x in out['statement'] if x!='n:declaration']
# operands with a lower precedence go into brackets, mostly
out['_operand']=["a"]+["n:primary_expression"]*6+["n:parenthesized_expression"]*3+["n:expression"]
def sub(x,o):
    if x=='n:expression': return o
    return [sub(y,o) for y in x] if isinstance(x,list) else x
for k in ('binary_expression','unary_expression','ternary_expression','instanceof_expression','cast_expression','dml_expression'): out[k]=sub(out[k],'n:_operand')
out['_lvalue']=["a","n:identifier","n:identifier","n:field_access","n:array_access","n:_operand"]
out['update_expression']=sub(out['update_expression'],'n:_lvalue')
out['type_arguments']=["s","l:<","n:_type",["*",["s","l:,","n:_type"]],"l:>"]
out['version_number']=["t",["s","r:\\d+","l:.","r:\\d+"]]
out['_object']=["a"]+["n:"+k for k in ("class_literal","this","identifier","string_literal","parenthesized_expression","object_creation_expression","field_access","array_access","method_invocation","array_creation_expression","map_creation_expression","query_expression")]
def sub2(x,f,o):
    if x==f: return o
    return [sub2(y,f,o) for y in x] if isinstance(x,list) else x
for k in ('field_access','method_invocation','array_access'): out[k]=sub2(out[k],'n:primary_expression','n:_object')
out['dml_expression'][3]=["s","n:merge_dml_type",["a",["s","k:as","n:dml_security_mode"],["s"]],["a","n:identifier",["s","n:identifier","l:.","n:identifier"]],"l: ",["a","n:identifier","n:this",["s","n:identifier","l:.","n:identifier"],["s","n:identifier","l:[","n:int","l:]"]]]
s='{\n'+',\n'.join(json.dumps(n)+':'+json.dumps(x,separators=(',',':')) for n,x in out.items())+'\n}\n'
open('grammar.json','w').write(s)
