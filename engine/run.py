import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
p = sys.argv[1]
if p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C16'):
    import numeric; sys.exit(numeric.main(p))
MOD = {'C13': 'ub', 'C17': 'purity', 'C18': 'nanprop'}
if p in ('C14', 'C15'): import rel; sys.exit(rel.main(p))
if p in MOD: sys.exit(__import__(MOD[p]).main(p))
print('no check for', p); sys.exit(2)
