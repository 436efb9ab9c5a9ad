import sys; sys.path.insert(0,'/verif/lib'); import vlib, collections
m,d=sys.argv[1],int(sys.argv[2])
c=vlib.Check('X','x','dbg')
b=c.generate(m+'MC',m+'Gen.cfg',20,d)
print(m,collections.Counter((x['op'],x.get('w') if isinstance(x.get('w'),str) else '') for y in b for x in y))
