import re
exec(open('/verif/tools/bugs/mk3.py').read().replace('from bugs3 import', 'from bugs4 import'))
