SNIPPETS = []


def s(name, args, src):
    SNIPPETS.append((name, args, src))


s("if", "ii", "def f(a,b):\n if a<b: return a\n elif a==b: return -1\n return b\n")
s("chain", "ii", "def f(a,b):\n return 2 <= a < b <= 7, not a, a and b, a or b, a if b else -a\n")
s("bits", "y", "def f(v):\n return v>>4&7, v&0x1f, (v&128)>0, bool(v&64), v>>7, divmod(v,16), v//16, v%16, v^255, ~v&255, (v<<2)&255\n")
s("neg_floor", "nn", "def f(a,b):\n return a//3, a%3, -a//2, abs(a), max(a,b), min(a,b), (a>b)-(a<b)\n")
s("div0", "ii", "def f(a,b):\n return a//b\n")
s("while", "i", "def f(n):\n r=[]\n k=0\n while k<n%4:\n  r.append(k*2)\n  k+=1\n return r\n")
s("for_else", "l", "def f(l):\n for i,x in enumerate(l):\n  if x==2: break\n else:\n  return -1\n return i\n")
s("for_continue", "l", "def f(l):\n r=0\n for x in l:\n  if x==1: continue\n  r=r*10+x\n return r\n")
s("next_gen", "li", "def f(l,v):\n return next((i for i,x in enumerate(l) if x==v), None)\n")
s("any_all", "li", "def f(l,v):\n return any(x==v for x in l), all(x<=v for x in l), sum(x>v for x in l)\n")
s("index_try", "li", "def f(l,v):\n try:\n  return l.index(v)\n except ValueError:\n  return -1\n")
s("in", "li", "def f(l,v):\n return v in l, v not in (1,2,9), v in range(3,6), v in {4:1,5:2}, v in {7,8}\n")
s("dict_get", "i", "def f(v):\n d={1:'a',2:'b',5:None}\n return d.get(v), d.get(v,'z'), d.get(v,0) or 'q'\n")
s("dict_item", "i", "def f(v):\n d={k:k*k for k in range(5)}\n return d[v]\n")
s("dict_try", "i", "def f(v):\n d={1:'a',2:'b'}\n try:\n  return d[v]\n except KeyError:\n  return 'none'\n")
s("dict_set", "ii", "def f(a,b):\n d={}\n d[a]=1\n d[b]=2\n return d.get(a), d.get(b), len(d), a in d, 3 in d\n")
s("setdefault", "ii", "def f(a,b):\n d={}\n d.setdefault(a,[]).append(1)\n d.setdefault(b,[]).append(2)\n return d[a], d[b]\n")
s("defaultdict", "ii", "import collections\ndef f(a,b):\n d=collections.defaultdict(list)\n d[a].append(1)\n d[b].append(2)\n return d[a], d[b], len(d)\n")
s("table", "y", "def g(a): return a+1\ndef h(a): return a*2\nT={0:g,1:h,2:lambda a:a-1}\ndef f(v):\n k=T.get(v&3)\n if k is None: return 'x'\n return k(v)\n")
s("ranges", "y", "R=[(0,9,'a'),(10,99,'b'),(100,200,'c')]\ndef f(v):\n for lo,hi,n in R:\n  if lo<=v<=hi: return n\n return None\n")
s("match", "y", "def f(v):\n match v:\n  case 1|2: return 'a'\n  case 5: return 'b'\n  case x if x>100: return x\n  case _: return None\n")
s("try_finally", "i", "def f(v):\n r=[]\n try:\n  r.append(1)\n  if v>5: raise ValueError\n  r.append(2)\n except ValueError:\n  r.append(3)\n else:\n  r.append(4)\n finally:\n  r.append(5)\n return r\n")
s("finally_return", "i", "def f(v):\n r=[]\n def g():\n  try:\n   if v: return 'a'\n   return 'b'\n  finally:\n   r.append(v)\n return g(), r\n")
s("reraise", "i", "def f(v):\n try:\n  try:\n   return 10//v\n  except ZeroDivisionError as e:\n   raise KeyError('k') from e\n except KeyError:\n  return 'k'\n")
s("custom_exc", "i", "class E(ValueError): pass\ndef f(v):\n try:\n  if v==3: raise E('x')\n  if v==4: raise RuntimeError\n except ValueError as e:\n  return type(e).__name__\n return v\n")
s("uncaught", "i", "def f(v):\n if v>7: raise EOFError\n return v\n")
s("assert", "i", "def f(v):\n assert v<5\n return v\n")
s("loop_try", "l", "def f(l):\n r=[]\n it=iter(l)\n while True:\n  try:\n   x=next(it)\n  except StopIteration:\n   break\n  r.append(x+1)\n return r\n")
s("iter_class", "s", "class V:\n def __init__(self,f): self.f=f\n def __iter__(self): return self\n def __next__(self):\n  b=self.f.read(1)\n  if not b: raise StopIteration\n  return b[0]\ndef f(s):\n v=V(s)\n return next(v,None), next(v,None), next(v,-1)\n")
s("gen_class", "s", "def g(s):\n while True:\n  b=s.read(1)\n  if not b: return\n  yield b[0]\ndef f(s):\n for x in g(s): return x\n return None\n")
s("read_short", "s", "import struct\ndef f(s):\n b=s.read(2)\n if len(b)!=2: raise EOFError\n return struct.unpack('<H',b)[0]\n")
s("read_frombytes", "s", "def f(s):\n b=s.read(2)\n return int.from_bytes(b,'little'), len(b), b[:1]==b'\\x01', s.tell()\n")
s("read_struct4", "s", "import struct\ndef f(s):\n return struct.unpack('<BH', s.read(3))\n")
s("read_all", "s", "def f(s):\n d=s.read()\n return len(d), d[0:2]==b'\\x00\\x01', d[1] if len(d)>1 else None\n")
s("seek", "s", "def f(s):\n s.seek(2)\n a=s.read(1)\n s.seek(0)\n b=s.read(1)\n s.seek(1,1)\n c=s.read(1)\n return a==b, b==c, len(a)+len(b)+len(c), s.tell()\n")
s("read_var", "s", "def f(s):\n n=s.read(1)\n if not n: return None\n d=s.read(n[0])\n e=s.read(1)\n return len(d), e[0] if e else None\n")
s("walrus", "s", "def f(s):\n if (b:=s.read(1)):\n  return b[0]\n return None\n")
s("memoryview", "s", "def f(s):\n b=s.read(4)\n return list(b)[:2] if len(b)==4 else None\n")
s("unpack_bytes", "s", "def f(s):\n b=s.read(2)\n if len(b)<2: raise EOFError\n x,y=b\n return x*256+y\n")
s("partial", "s", "import struct\nH=struct.Struct('<H')\ndef f(s):\n b=s.read(H.size)\n if len(b)<H.size: return None\n (x,)=H.unpack(b)\n return x\n")
s("iterclass2", "i", "class C:\n def __init__(self,n): self.n=n\n def __len__(self): return self.n\n def __getitem__(self,i):\n  if i>=self.n: raise IndexError\n  return i\n def __bool__(self): return self.n>2\ndef f(v):\n c=C(v)\n return len(c), bool(c), (c[3] if v>3 else None)\n")
s("inherit", "i", "class A:\n k=1\n def __init__(self,v): self.v=v\n def m(self): return self.v+self.k\nclass B(A):\n k=2\n def __init__(self,v):\n  super().__init__(v*2)\n  self.w=v\n def m(self): return super().m()*10\ndef f(v):\n b=B(v); a=A(v)\n return a.m(), b.m(), isinstance(b,A), isinstance(a,B), type(b) is B\n")
s("props", "i", "class A:\n def __init__(self,v): self._v=v\n @property\n def v(self): return self._v+1\n @v.setter\n def v(self,x): self._v=x*2\n @staticmethod\n def s(x): return x+5\n @classmethod\n def mk(cls,x): return cls(x)\ndef f(v):\n a=A.mk(v)\n r=a.v\n a.v=v\n return r,a.v,A.s(v),a.s(v)\n")
s("getattr_hook", "i", "class A:\n def __init__(self,v): self.x=v\n def __getattr__(self,n):\n  if n=='y': return self.x*2\n  raise AttributeError(n)\ndef f(v):\n a=A(v)\n return a.x,a.y,getattr(a,'z',7),hasattr(a,'y'),hasattr(a,'q')\n")
s("eq_method", "ii", "class A:\n def __init__(self,v): self.v=v\n def __eq__(self,o):\n  if isinstance(o,A): return self.v==o.v\n  return NotImplemented\ndef f(a,b):\n x,y=A(a),A(b)\n return x==y, x!=y, x==3, [x]==[y], y in [x], (x,1)==(y,1)\n")
s("dataclass", "ii", "from dataclasses import dataclass, field, replace\n@dataclass\nclass A:\n a:int\n b:int=3\n c:list=field(default_factory=list)\ndef f(a,b):\n x=A(a); y=A(b,b=a); z=replace(x,b=b)\n x.c.append(1)\n return x==y, y.b, z.b, z.c, x.c, y.c\n")
s("dataclass_frozen", "ii", "from dataclasses import dataclass\n@dataclass(frozen=True)\nclass A:\n a:int\n b:int\ndef f(a,b):\n d={A(1,2):'x'}\n return d.get(A(a,b)), A(a,b)==A(b,a)\n")
s("namedtuple", "ii", "from collections import namedtuple\nP=namedtuple('P','x y')\ndef f(a,b):\n p=P(a,y=b)\n q=p._replace(x=9)\n x,y=p\n return p.x,p[1],q,x+y,p==(a,b)\n")
s("namedtuple_t", "ii", "from typing import NamedTuple\nclass P(NamedTuple):\n x:int\n y:int=4\n def s(self): return self.x+self.y\ndef f(a,b):\n return P(a).s(), P(a,b).s(), P(b)==P(a)\n")
s("enum", "i", "from enum import Enum, IntEnum\nclass E(Enum):\n A=0\n B=1\n C=2\nclass I(IntEnum):\n X=1\n Y=2\ndef f(v):\n e=E(v%3)\n return e is E.B, e.name, e.value, I(v%2+1)==1, I(v%2+1)+3, e==E.C\n")
s("enum_bad", "i", "from enum import Enum\nclass E(Enum):\n A=0\n B=1\ndef f(v):\n return E(v).name\n")
s("flag", "i", "from enum import Flag\nclass O(Flag):\n A=1\n B=2\n C=4\n D=8\ndef f(v):\n o=O(v)\n return bool(o&O.B), '|'.join(m.name for m in O if o&m), o==O(3), o.value, O.C in o\n")
s("closure", "i", "def mk(n):\n c=n\n def g(x):\n  nonlocal c\n  c+=x\n  return c\n return g\ndef f(v):\n g=mk(v); h=mk(1)\n g(2)\n return g(3),h(1)\n")
s("global", "i", "K=[]\nN=0\ndef f(v):\n global N\n N=v\n K.clear()\n K.append(N)\n return K[0]+N\n")
s("defaults", "i", "def g(a,b=2,*c,d=4,**e): return (a,b,c,d,sorted(e))\ndef f(v):\n return g(v), g(v,1,5,6,d=v), g(a=v,z=1), g(*[v,3],**{'d':9})\n")
s("kwonly", "i", "def g(*,x,y=2): return x+y\ndef f(v): return g(x=v), g(**{'x':1,'y':v})\n")
s("lambda_map", "l", "def f(l):\n return list(map(lambda x:x+1,l)), list(filter(lambda x:x>1,l)), sorted(l), sorted(l,reverse=True), list(reversed(l)), sum(l), max(l), min(l)\n")
s("zip", "li", "def f(l,v):\n return [a*b for a,b in zip(l,(1,v,3))], dict(zip('abc',l)), list(zip(l,l[1:]))\n")
s("comp", "l", "def f(l):\n return [x for x in l if x], {x for x in l}=={1}, {i:x for i,x in enumerate(l)}, [[y for y in range(x)] for x in l], (*l,9), [*l,*l]\n")
s("slices", "l", "def f(l):\n return l[1:],l[:-1],l[::-1],l[-1],l[:],l[1:1]\n")
s("slice_assign", "l", "def f(l):\n m=list(l)\n m[0]=9\n m[-1]+=1\n return l,m,len(m)\n")
s("listops", "li", "def f(l,v):\n m=l+[v]\n m.insert(0,7)\n m.extend([1])\n m.pop()\n k=m.pop(0)\n n=[0]*2\n return m,k,n,len(m),m.count(v)\n")
s("set_ops", "ii", "def f(a,b):\n s=set()\n s.add(a); s.add(b)\n return len(s), a in s, 3 in s, sorted(s)\n")
s("set_sorted3", "l", "def f(l):\n return sorted(set(l)), len(set(l))\n")
s("tuple_key", "ii", "def f(a,b):\n d={(1,2):'x',(3,4):'y'}\n return d.get((a,b)), (a,b)<(b,a)\n")
s("unpack", "l", "def f(l):\n a,*b=l\n (c,d),e=(l[0],l[1]),l[2]\n a,c=c+1,a\n return a,b,c,d,e\n")
s("fmt", "iy", "def f(a,v):\n return f'{a}-{v:02X}', '{:0>2X}'.format(v), '%d/%02x'%(a,v), hex(v), str(a)+'x', f'{v:>3}', '{0}{1}'.format(a,v)\n")
s("fmt2", "i", "def f(a):\n return '{:.2}'.format(a/4), f'{a*1.6:02.0f}', f'{a!r}', '{x}'.format(x=a), 'ab'*a\n")
s("strops", "t", "def f(t):\n return t=='Vgm ', t.startswith('V'), len(t), bool(t), t+'!', t or 'none', t.upper()=='X', t in ('x','y')\n")
s("join", "ii", "def f(a,b):\n r=[]\n if a>3: r.append('a')\n if b>3: r.append('b')\n return '|'.join(r), len(r)\n")
s("nested_fn", "ii", "def f(a,b):\n def g(x):\n  return x+b\n def h(x,k=a): return g(x)*k\n return h(2), g(a)\n")
s("recursion", "i", "def g(n):\n if n==0: return 0\n return n+g(n-1)\ndef f(v):\n return g(v%4)\n")
s("alias", "b", "def f(c):\n a=[1]; b=[2]\n x=a if c else b\n x.append(5)\n return a,b,x is a\n")
s("alias2", "b", "class O: pass\ndef f(c):\n a=O(); b=O()\n a.v=1; b.v=2\n x=a if c else b\n x.v+=10\n y=x\n y.w=3\n return a.v,b.v,hasattr(a,'w')\n")
s("alias_idx", "i", "def f(v):\n l=[[],[],[]]\n l[v%3].append(1)\n l[(v+1)%3].append(2)\n return l\n")
s("obj_idx", "ii", "class O:\n def __init__(self): self.a=0; self.b=[0,0]\ndef f(v,w):\n l=[O() for _ in range(4)]\n o=l[v&3]\n o.a=w\n o.b[w&1]=5\n l[w&3].a+=1\n return [(x.a,x.b) for x in l]\n")
s("mul_list", "i", "def f(v):\n l=[[0]]*3\n l[v%3].append(1)\n return l\n")
s("deepcopy", "i", "import copy\nclass O:\n def __init__(self): self.a=[1,[2]]; self.v=0\ndef f(v):\n o=O(); p=copy.deepcopy(o); q=copy.copy(o)\n o.a[1].append(v); o.v=v\n return o.a,p.a,q.a,p.v,q.v\n")
s("deepcopy_hook", "i", "import copy\nclass O:\n def __init__(self,v): self.v=v\n def __deepcopy__(self,m): return O(self.v+1)\ndef f(v):\n return [x.v for x in copy.deepcopy([O(v),O(1)])]\n")
s("ctx", "i", "import contextlib\n@contextlib.contextmanager\ndef g(r):\n r.append('in')\n try:\n  yield 5\n finally:\n  r.append('out')\ndef f(v):\n r=[]\n try:\n  with g(r) as x:\n   if v>4: raise ValueError\n   r.append(x)\n except ValueError:\n  r.append('err')\n return r\n")
s("ctx_class", "i", "class G:\n def __init__(self,r): self.r=r\n def __enter__(self): self.r.append(1); return self\n def __exit__(self,t,v,tb): self.r.append(t is None); return t is KeyError\ndef f(v):\n r=[]\n with G(r):\n  if v==1: raise KeyError\n  if v==2: return 'early',r\n return r\n")
s("exitstack", "i", "import contextlib\ndef f(v):\n r=[]\n with contextlib.ExitStack() as st:\n  st.callback(r.append,1)\n  if v>3: st.callback(r.append,2)\n  r.append(0)\n return r\n")
s("suppress", "i", "import contextlib\ndef f(v):\n r=0\n with contextlib.suppress(ZeroDivisionError):\n  r=10//v\n return r\n")
s("itertools", "l", "import itertools\ndef f(l):\n return list(itertools.chain(l,[9])), list(itertools.islice(l,2)), list(itertools.takewhile(lambda x:x<2,l)), list(itertools.accumulate(l)), list(itertools.repeat(1,2))\n")
s("functools", "l", "import functools\ndef f(l):\n p=functools.partial(max,2)\n return functools.reduce(lambda a,b:a*4+b,l,1), p(l[0])\n")
s("operator", "l", "import operator\ndef f(l):\n return operator.itemgetter(1)(l), operator.add(l[0],l[1]), max(l,key=operator.neg)\n")
s("minkey", "l", "def f(l):\n return min(enumerate(l),key=lambda p:p[1]), max(range(3),key=l.__getitem__), min(l,default=5)\n")
s("sortkey", "l", "def f(l):\n return [i for i,x in sorted(enumerate(l),key=lambda p:p[1])], sorted(l,key=lambda x:-x)\n")
s("gen_send", "l", "def g(l):\n for x in l:\n  if x==3: return\n  yield x\n  yield from (x+10,)\ndef f(l): return list(g(l))\n")
s("gen_sum", "l", "def f(l):\n return sum(x*i for i,x in enumerate(l,1)), len([1 for x in l if x==2]), tuple(x for x in l)\n")
s("while_else", "i", "def f(v):\n k=0\n while k<3:\n  if k==v: break\n  k+=1\n else:\n  return 'none'\n return k\n")
s("nested_loops", "l", "def f(l):\n r=[]\n for x in l:\n  for y in range(x):\n   if y==1: break\n   r.append((x,y))\n  else:\n   r.append(x)\n return r\n")
s("del", "i", "def f(v):\n d={1:2,3:4}\n l=[1,2,3]\n del d[1]\n del l[v%3]\n return d,l\n")
s("dict_iter", "ii", "def f(a,b):\n d={'x':a,'y':b}\n return [k+str(v) for k,v in d.items()], list(d), list(d.values()), sum(d.values())\n")
s("dict_update", "ii", "def f(a,b):\n d={'x':a}\n d.update(y=b)\n e={**d,'x':7}\n g=dict(d,z=1)\n return d,e,g,d=={'x':1,'y':2},d.pop('x'),len(d)\n")
s("dict_eq", "ii", "def f(a,b):\n return {'p':a,'q':b}=={'p':b,'q':a}\n")
s("vars", "ii", "class A:\n def __init__(self,a,b): self.a=a; self.b=b\n def __eq__(self,o): return isinstance(o,A) and self.__dict__==o.__dict__\ndef f(a,b):\n return A(a,b)==A(b,a), vars(A(a,1)), A(a,a)==A(b,b)\n")
s("setattr", "ii", "class A: pass\ndef f(a,b):\n x=A()\n for n,v in (('p',a),('q',b)): setattr(x,n,v)\n return x.p,x.q,[getattr(x,n) for n in ('p','q')]\n")
s("slots", "i", "class A:\n __slots__=('a','b')\n def __init__(self,a): self.a=a; self.b=a+1\n def key(self): return tuple(getattr(self,n) for n in self.__slots__)\ndef f(v):\n return A(v).key(), A(v).key()==A(3).key()\n")
s("hash_key", "ii", "class A:\n def __init__(self,a): self.a=a\n def __eq__(self,o): return self.a==o.a\n def __hash__(self): return hash(self.a)\ndef f(a,b):\n d={A(2):'x'}\n return d.get(A(a)), A(a) in {A(b)}\n")
s("isinstance_tuple", "b", "class A: pass\nclass B(A): pass\nclass D: pass\ndef f(c):\n x=B() if c else D()\n return isinstance(x,(A,int)), issubclass(type(x),A), x.__class__.__name__\n")
s("singledispatch", "b", "import functools\nclass A: pass\nclass B(A): pass\n@functools.singledispatch\ndef g(x): return 'o'\n@g.register\ndef _(x: A): return 'a'\ndef f(c):\n return g(B() if c else 3)\n")
s("lru", "i", "import functools\n@functools.lru_cache(None)\ndef g(x): return x*2\ndef f(v): return g(v)+g(v)\n")
s("ternary_chain", "i", "def f(v):\n x = 'a' if v<2 else 'b' if v<5 else None\n return x, x is None, x=='b', (x or 'z')\n")
s("none_default", "i", "def g(x=None):\n if x is None: x=[]\n x.append(1)\n return x\ndef f(v):\n return g(), g([v]), g()\n")
s("mutable_default", "i", "def g(x,l=[]):\n l.append(x)\n return list(l)\ndef f(v):\n l=[]\n return g(v,l), g(1,l)\n")
s("float", "i", "def f(v):\n return v/4, int(v/4), round(v/4), v*0.5, int(60/((v+1)/44100*4)), float(v), 7//2.0, -v/3\n")
s("intparse", "i", "def f(v):\n return int('12')+v, int('1f',16), int(str(v)*2), int(f'{v:x}',16)\n")
s("divmod_chain", "y", "def f(v):\n q,r=divmod(v,10)\n return q,r,q*10+r==v, v-v%10\n")
s("bcd", "y", "def f(v):\n return int('%x'%v) if v>>4<10 and v&15<10 else None\n")
s("bytes_ops", "y", "def f(v):\n b=bytes([v,1])\n c=b+b'\\x02'\n return b[0],len(c),c[-1],b==b'\\x01\\x01',int.from_bytes(c,'big'),list(c),c[:2]==b\n")
s("bytearray", "y", "def f(v):\n b=bytearray(3)\n b[1]=v\n b.append(7)\n return list(b),bytes(b)[1],len(b)\n")
s("bytesio", "y", "import io\ndef f(v):\n s=io.BytesIO(bytes([v,2,3]))\n a=s.read(1)\n return a[0],s.read(),s.tell()\n")
s("to_bytes", "y", "def f(v):\n return (v*3).to_bytes(2,'little')[0], (v*3).to_bytes(2,'big')[0]\n")
s("array", "s", "def f(s):\n b=s.read(2)\n if len(b)!=2: return None\n return b[0]|b[1]<<8\n")
s("global_const", "i", "A,B=1,2\nC_=A+B\nT=tuple(range(C_))\ndef f(v): return T[v%3]+C_, [x for x in T if x<v]\n")
s("cls_attr", "i", "class A:\n n=0\n l=[]\n def inc(self): self.n+=1; return self.n\ndef f(v):\n a=A();b=A()\n A.n=0\n a.inc();a.inc()\n A.n=v\n return a.n,b.n,A.n\n")
s("cls_shared", "i", "class A:\n def __init__(self): self.l=[]\n def add(self,x): self.l.append(x); return self\ndef f(v):\n return A().add(v).add(2).l\n")
s("while_true_ret", "i", "def f(v):\n k=v\n while True:\n  if k>9: return k\n  k+=4\n")
s("deque", "i", "import collections\ndef f(v):\n d=collections.deque([1,2])\n d.append(v)\n d.appendleft(0)\n x=d.popleft()\n return list(d),x,len(d),d[-1]\n")
s("counter", "l", "import collections\ndef f(l):\n c=collections.Counter(l)\n return c[1],c[9]\n")
s("ordered", "ii", "import collections\ndef f(a,b):\n d=collections.OrderedDict()\n d['x']=a\n d['y']=b\n return list(d.items())\n")
s("str_iter", "i", "def f(v):\n return [c for c in 'abc'], 'abc'[v%3], list('xy').index('y'), 'abcdefghij'[v], 'a b'.split()\n")
s("chr", "i", "def f(v):\n return chr(65+v), ord('A')+v, 'ABCDEFGHIJ'.index(chr(65+v))\n")
s("cond_import", "i", "try:\n import nosuchmodule_x\nexcept ImportError:\n nosuchmodule_x=None\ndef f(v): return nosuchmodule_x is None, v\n")
s("star_args", "l", "def g(*a): return len(a), a[0]\ndef f(l): return g(*l), max(*l), print(*l) is None\n")
s("bool_arith", "ii", "def f(a,b):\n return (a>b)+(a==b)*2, True+a, (not a)*3, int(a>b), -(a>b)\n")
s("xor_bool", "bb", "def f(a,b):\n return a^b, a&b, a|b, a!=b, not(a and b), a==b\n")
s("is_cmp", "b", "def f(a):\n x = None if a else 0\n return x is None, x is not None, x==0, x!=None, bool(x)\n")
s("del_attr", "b", "class A: pass\ndef f(c):\n a=A(); a.x=1\n if c: del a.x\n return hasattr(a,'x'), getattr(a,'x',None)\n")
s("loop_var_after", "l", "def f(l):\n for x in l: pass\n return x\n")
s("list_sort_inplace", "l", "def f(l):\n l.sort()\n m=l[:]\n m.reverse()\n return l,m\n")
s("copy_list", "i", "def f(v):\n a=[1,2]\n b=a.copy(); c=a[:]; d=list(a); e=a\n a.append(v)\n return len(b),len(c),len(d),len(e)\n")
s("cmp_tuple", "ii", "def f(a,b):\n return (a,1)==(b,1), (a,)+(b,), (1,2)<(1,3), tuple([a])*2\n")
s("compare_none_eq", "b", "def f(c):\n x='a' if c else None\n return x==None, x!='a', [x]==['a'], {'k':x}=={'k':None}\n")
s("subclass_list", "i", "class L(list):\n def add(self,x): self.append(x); return self\ndef f(v):\n l=L([1])\n l.add(v)\n return list(l),len(l),l[1]\n")
s("match_seq", "ii", "def f(a,b):\n match (a,b):\n  case (0,y): return y\n  case (x,0): return -x\n  case (1|2,3): return 'p'\n return None\n")
s("match_cls", "b", "class A:\n def __init__(self,v): self.v=v\nclass B(A): pass\ndef f(c):\n x=B(5) if c else A(6)\n match x:\n  case B(v=k): return 'b',k\n  case A(): return 'a'\n")
s("rev_bytes", "s", "def f(s):\n b=s.read(4)\n if len(b)!=4: return None\n o=0\n for x in reversed(b):\n  o=o*100+(x>>4)*10+(x&15)\n return o\n")
s("rev_bytes2", "s", "def f(s):\n b=s.read(3)\n if len(b)!=3: return None\n return [x for x in reversed(b)], list(reversed(b)), b[::-1], list(b)[::-1], max(b), sorted(b), sum(b)\n")
s("iter_bytes_short", "s", "def f(s):\n o=1\n for x in s.read(3): o=o*3+x\n return o\n")
s("rev_bytes_short", "s", "def f(s):\n o=1\n for x in reversed(s.read(3)): o=o*3+x\n return o\n")
s("lost_break", "iib", "def f(a,b,c):\n r=[]\n for x in (1,2,3):\n  if a>4:\n   if x==b%4:\n    r.append('b'); break\n  r.append(x)\n else:\n  r.append('e')\n return r\n")
s("lost_ret", "iib", "def g(a,b,r):\n if a>3:\n  r.append(1)\n  if b>4:\n   return 7\n r.append(2)\n return 8\ndef f(a,b,c):\n r=[]\n v=g(a,b,r)\n if c: r.append(v)\n return r,v\n")
s("lost_exc", "iib", "def g(a,b,r):\n if a>3:\n  r.append(1)\n  if b>4:\n   raise ValueError\n r.append(2)\n return 8\ndef f(a,b,c):\n r=[]\n try:\n  v=g(a,b,r)\n  r.append(v)\n except ValueError:\n  r.append(9)\n finally:\n  r.append(5)\n return r\n")
s("lost_cont", "iib", "def f(a,b,c):\n r=[]\n for x in (1,2,3):\n  if a>4:\n   if x==b%4:\n    r.append('b'); continue\n   if c and x==2: break\n  elif b==x: break\n  r.append(x)\n else:\n  r.append('e')\n return r\n")
s("lost_while", "iib", "def f(a,b,c):\n r=[]\n x=0\n while x<a%5:\n  if c:\n   if x==b%4:\n    r.append('b'); break\n  r.append(x)\n  x+=1\n else:\n  r.append('e')\n return r\n")
s("lost_loop", "iib", "def f(a,b,c):\n r=0\n x=0\n for x in range(a*5):\n  if c:\n   if x==b:\n    r=100; break\n  r=r+1\n else:\n  r=r+1000\n return r,x\n")
s("le_while_divmod", "s", "def f(s):\n b=s.read(2)\n if len(b)!=2: return None\n r=int.from_bytes(b,'little')\n v,k=0,1\n while r:\n  r,d=divmod(r,16)\n  v+=d*k\n  k*=10\n return v\n")
s("read_loop_shift", "s", "def r8(s):\n b=s.read(1)\n if len(b)!=1: raise EOFError\n return b[0]\ndef f(s):\n v=0\n for k in range(0,32,8): v|=r8(s)<<k\n return v\n")
s("while_find", "li", "def f(l,k):\n i=0\n while i<len(l):\n  if l[i]==k: break\n  i+=1\n return i\n")
s("matches_list", "li", "def f(l,k):\n m=[i for i,x in enumerate(l) if x==k]\n return m[0] if m else len(l)\n")
s("find_ret", "li", "def g(l,k):\n for i,x in enumerate(l):\n  if x==k: return i\n return -1\ndef f(l,k):\n c=g(l,k)\n if c<0:\n  c=len(l)\n  l.append(k)\n return c,l\n")
s("grow_range", "ii", "class P:\n def __init__(self): self.d={}\ndef f(a,b):\n l=[]\n for n in (a,b):\n  for _ in range(len(l),n%4+1): l.append(P())\n  t=l[n%4]\n  t.d[n]=n*2\n return [sorted(p.d.items()) for p in l]\n")
s("grow_extend", "ii", "class P:\n def __init__(self): self.d={}\ndef f(a,b):\n l=[]\n for n in (a,b):\n  m=n%4+1-len(l)\n  if m>0: l.extend(P() for _ in range(m))\n  l[n%4].d[n]=n*2\n return [sorted(p.d.items()) for p in l]\n")
s("sort_dict_items", "ii", "def f(a,b):\n d={}\n d[a]='x'\n d[b]='y'\n return [(k,v) for k,v in sorted(d.items())], sorted(d), sorted(d,reverse=True), sorted(d.items(),key=lambda kv:-kv[0])\n")
s("set_of_list", "l", "def f(l):\n b=set()\n for x in l: b.add(x)\n return sorted(b), len(b), sorted(list(b)), max(b, default=0), sum(b)\n")
s("set_comp", "li", "def f(l,k):\n b={x%3 for x in l}\n b.add(k%3)\n return sorted(b), len(b), k in b, [x for x in sorted(b) if x], sum(1 for x in b)\n")
s("inner_loop_value", "l", "def f(l):\n r=[]\n for x in l:\n  j=0\n  while j*j<x: j+=1\n  r.append(j)\n return [(i,v) for i,v in enumerate(r)], sum(r), sorted(r)\n")
s("inner_loop_break", "li", "def f(l,k):\n r=[]\n for s in range(4):\n  d=0\n  i=0\n  try:\n   while True:\n    while l[i]<s+k:\n     d+=1\n     i+=1\n    d+=10\n    i+=1\n  except IndexError:\n   pass\n  r.append(d)\n return sorted([(i+10,c) for i,c in enumerate(r)], key=lambda t:t[1])[0]\n")
s("inner_loop_far", "li", "def f(l,k):\n r=[]\n for s in range(400):\n  i=0\n  while i<len(l) and l[i]!=s: i+=1\n  r.append(i)\n return r[k], r[k+1]-r[k], sorted([(v,i) for i,v in enumerate(r)],key=lambda t:t[0])[0]\n")
s("two_inner", "l", "def f(l):\n r=[]\n for x in l:\n  a=0\n  for y in l:\n   if y<x: a+=1\n  b=[z for z in l if z>x]\n  r.append((a,len(b)))\n return [p[0]-p[1] for p in r], max((p[0] for p in r), default=-1)\n")
s("tw1","l","import itertools\ndef f(l):\n r=[]\n for x in itertools.takewhile(lambda x:x!=2,l):\n  r.append(x)\n return r\n")
s("tw2","l","import itertools\ndef f(l):\n n=0\n for x in itertools.takewhile(lambda x:x!=2,l):\n  n+=x\n return n\n")
s("tw3","l","import itertools\nclass A: pass\nclass B(A): pass\ndef f(l):\n n=[0]\n def p(c): n[0]+=1\n def q(c): n[0]+=10\n h={A:p,B:q}\n for x in l:\n  o=A() if x==1 else B() if x==2 else 5\n  g=h.get(type(o))\n  if g is not None: g(x)\n return n\n")
s("nested_seq", "l", "def f(l):\n r=[]\n for x in l:\n  b=[z for z in l if z>x]\n  r.append((1,len(b)))\n return [p[0]-p[1] for p in r]\n")
s("nested_seq2", "l", "def f(l):\n r=[]\n for x in l:\n  b=[z for z in l if z>x]\n  r.append((sum(b),b))\n return [p[0]+len(p[1]) for p in r], [q for p in r for q in p[1]]\n")
s("nested_sorted", "l", "def f(l):\n r=[]\n for x in l:\n  b=sorted((z+x for z in l), reverse=True)\n  r.append(b[0])\n return [p+1 for p in r], max(r, default=0), min(r, key=lambda v:-v) if r else None\n")
s("slices_nested", "l", "def f(l):\n return [sum(l[i:]) for i in range(len(l))], [a-b for a,b in zip(l[1:],l)], l[:2]+l[2:], l[-2:], l[::2]\n")
s("max_obj", "l", "class P:\n def __init__(s,v,i): s.v=v; s.i=i\ndef f(l):\n ps=[P(v,i) for i,v in enumerate(l)]\n m=max(ps,key=lambda p:p.v,default=None)\n k=sorted(ps,key=lambda p:(-p.v,p.i))\n return (m.v,m.i) if m else None,[p.i for p in k]\n")
s("pairs", "l", "def f(l):\n r=[]\n prev=None\n for x in l:\n  if prev is not None: r.append(x-prev)\n  prev=x\n return r, all(d==1 for d in r), len(set(r))\n")
s("groups", "l", "def f(l):\n d={}\n for x in l:\n  d[x]=d.get(x,0)+1\n return sorted(d), d.get(1,0)\n")
s("type_table", "i", "class A: pass\nclass B(A): pass\ndef f(v):\n o=A() if v>3 else B() if v>1 else v\n h={A:'a',B:'b',int:'i'}\n return h.get(type(o)), type(o) is A, type(o)==B, type(o) in (A,int)\n")
s("alias_loop", "li", "class P:\n def __init__(s): s.v=0\nD=P()\ndef f(l,k):\n a=P(); h=[a]; cur=a\n for x in l:\n  if x>k: cur=P()\n  cur.v+=x\n return a.v, cur.v, cur is a, h[0].v\n")
s("alias_loop2", "li", "class P:\n def __init__(s,c): s.c=c; s.n=0\nclass C: pass\ndef f(l,k):\n c=C(); c.v=0\n p=P(c); q=P(c)\n for x in l:\n  if x==k: p.c=C(); p.c.v=100\n  p.c.v+=x\n  p.n+=1\n return q.c.v, p.c.v, p.n, q.c is p.c\n")
s("cache_shared", "ii", "import functools\ndef f(a,b):\n @functools.lru_cache(maxsize=None)\n def g(n): return [n]\n x=g(1); x.append(a)\n y=g(1); y.append(b)\n z=g(2)\n return x, y, z, x is y, g(2) is z\n")
s("cache_plain", "ii", "import functools\n@functools.lru_cache(maxsize=None)\ndef g(n):\n return n*2, 'k%d'%n\n@functools.cache\ndef h(n): return (n,n)\ndef f(a,b):\n return g(a), g(b), h(a)==h(b)\n")
s("match_class", "i", "class A:\n def __init__(s,n): s.n=n\nclass B(A): pass\nclass D: pass\ndef f(v):\n o=D() if v<2 else A(v) if v<5 else B(v) if v<8 else v\n match o:\n  case B(n=6): return 'six'\n  case A(n=k) if k>3: return k\n  case D(n=k): return k\n  case D(): return 'd'\n  case int(x): return x+100\n  case A(q=1): return 0\n  case _: return 'o'\n")
s("count_of_list", "li", "def f(l,k):\n r=[]; n=0; m=5\n for x in l:\n  if x>k:\n   if n!=len(r): return 'bad'\n   r.append(n); n+=1; m=m+1\n   if x>k+2: r.append(m-5); n+=1; m+=1\n return r, n, m, n==len(r), m-len(r)\n")
s("count_not_list", "li", "def f(l,k):\n r=[]; n=0\n for x in l:\n  if x>k: r.append(x)\n  if x>=k: n+=1\n return len(r), n, n==len(r)\n")
_ABC = "class A:\n def __init__(s,v): s.v=v\nclass B:\n def __init__(s,w): s.w=w; s.v=1\nclass E: pass\ndef mk(x):\n return A(x) if x==1 else B(x*2) if x>1 else E()\n"
s("oneof_ahead", "l", _ABC + "def f(l):\n it=iter(l)\n x=next(it,None)\n c=None if x is None else mk(x)\n n=m=0\n while c is not None and not isinstance(c,E):\n  if isinstance(c,A): n+=c.v\n  else: m+=c.w\n  x=next(it,None)\n  c=None if x is None else mk(x)\n return n,m,c is None\n")
s("oneof_prev", "l", _ABC + "def f(l):\n p=E(); r=[]\n for x in l:\n  c=mk(x)\n  r.append((type(p).__name__, getattr(p,'v',None)))\n  p=c\n return r, isinstance(p,B), p.w if isinstance(p,B) else -1\n")
s("oneof_list", "l", _ABC + "def f(l):\n r=[]\n for x in l: r.append(mk(x))\n n=0; t=[]\n for c in r:\n  if isinstance(c,B): n+=c.w\n  elif isinstance(c,A): t.append(c.v)\n  else: break\n return n, t, len(r)\n")
s("oneof_alias", "li", _ABC + "def f(l,k):\n a=A(5); b=B(7); h=[a,b]; c=a\n for x in l:\n  if x==k: c=b\n  elif x>k: c=mk(x)\n  c.v=x\n return a.v, b.v, c is a, c is b, c.v\n")
s("oneof_write", "l", _ABC + "def f(l):\n c=E()\n for x in l:\n  if x<3: c=mk(x)\n  c.v=getattr(c,'v',0)+10\n return getattr(c,'v',None), type(c).__name__\n")
s("alias_body", "li", "class A:\n def __init__(s,v): s.v=v\ndef f(l,k):\n a=A(5); b=A(7); d=A(9); c=a\n for x in l:\n  if x==k: c=b\n  elif x>k: c=A(x)\n  elif x==0: c=d\n  c.v+=x+1\n return a.v, b.v, d.v, c is a, c is b, c.v\n")
s("alias_late", "li", "class A:\n def __init__(s,v): s.v=v\ndef f(l,k):\n b=A(7); c=None\n for x in l:\n  if c is not None: c.v+=1\n  if x==k: c=b\n  elif x>k: c=A(x)\n return b.v, c is b, c.v if c else None\n")
s("alias_elem", "l", "class P:\n def __init__(s,v): s.v=v\ndef f(l):\n ps=[P(v) for v in l]\n prev=None\n for p in ps:\n  if prev is not None: prev.v+=p.v\n  prev=p\n return [p.v for p in ps]\n")
s("alias_index", "li", "class P:\n def __init__(s,v): s.v=v\ndef f(l,k):\n ps=[P(v) for v in range(4)]\n cur=ps[k&3]\n for x in l:\n  cur.v+=x+1\n  cur=ps[x&3]\n return [p.v for p in ps], cur.v, ps.index(cur)\n")
