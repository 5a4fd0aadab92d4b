NEED = 3
EXPLANATION = ('Abstract interpretation of makeYbus over symbolic case tables; every entry of the three admittance '
               'matrices is reduced to an index-notation normal form and compared with the normal form of the pi-model.')
ASSUMPTIONS = ['branch status is 0 or 1; bus numbers are internal (0..nb-1)',
               'numpy/scipy operations have their documented meaning (transfer functions of the analyser)']


def check(k):
    k.wide = {('branch', 2): (-4, 2), ('branch', 3): (-4, 2), ('branch', 4): (-4, 2), ('bus', 4): (-4, 4), ('bus', 5): (-4, 4)}
    k.rule('branch-model', 'each admittance entry equals the pi-model entry (tap at from end, phase shift, charging, status, shunts)')
    k.ref('branch-model', 'Ybus,Yf,Yt', ('makeYbus', 'makeYbus'), ('network', 'ymatrices'),
          lambda C: [C.sym('baseMVA'), C.table('bus'), C.table('branch')])
