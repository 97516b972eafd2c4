CASES=[]
def bad(n,*e): CASES.append((n,'M01','bad',list(e)))
def quiet(n,*e): CASES.append((n,'M01','quiet',list(e)))
D='psdr/demos/'
bad('const',(D+'golinski.py','1.93/(x2*x3*x6**4)','1.98/(x2*x3*x6**4)'))
bad('otl',(D+'otl_circuit.py','11.35*Rf/(','11.53*Rf/('))
bad('otl-order',(D+'otl_circuit.py',"	Rc1 = x[:,3]\n	Rc2 = x[:,4]","	Rc1 = x[:,4]\n	Rc2 = x[:,3]"))
bad('wing',(D+'wing_weight.py','Nz*Wdg)**(0.49)','Nz*Wdg)**(0.94)'))
bad('beam-I',(D+'beam.py','I_Z = b**3*h/12','I_Z = b**3*h/3'))
bad('beam-default',(D+'beam.py',"def beam_shear_stress_grad(X, F = BEAM['F'], **kwargs):","def beam_shear_stress_grad(X, F = BEAM['L'], **kwargs):"))
bad('beam-area',(D+'beam.py',"np.array([X[:,1], X[:,0]]).T","np.array([X[:,0], X[:,1]]).T"))
bad('hart',(D+'hartmann.py','mu0 = 1','mu0 = 2') )
bad('quad',(D+'polynomial.py','X.dot(self.quad + self.quad.T)','2*X.dot(self.quad)'))
bad('quad2',(D+'polynomial.py','(X.dot(self.quad)*X).sum(axis = 1)','(X.dot(self.quad)*X).sum(axis = 1)/2'))
bad('affine',(D+'polynomial.py','np.tile(self.linear, (len(X),1))','np.tile(self.linear, (len(X),1))*2'))
bad('robot',(D+'robot_arm.py','L4*np.cos(th1+th2+th3+th4)','L4*np.cos(th1+th2+th3-th4)'))
bad('piston',(D+'piston.py','19.62*M','19.26*M'))
bad('borehole-bounds',(D+'borehole.py','63.1, 700','61.3, 700'))
bad('tail',(D+'golinski.py','x6 = x[4]\n	x7 = x[5]','x6 = x[5]\n	x7 = x[4]') ) if False else None
bad('shape',(D+'borehole.py',"]).T\n	return grad","])\n	return grad"))
quiet('unpack',(D+'otl_circuit.py',"	Rb1 = x[:,0]\n	Rb2 = x[:,1]\n	Rf = x[:,2]\n	Rc1 = x[:,3]\n	Rc2 = x[:,4]\n	beta = x[:,5]","	Rb1, Rb2, Rf, Rc1, Rc2, beta = x.T"))
quiet('helper',(D+'beam.py',"	sigma_Y = 3*F/(2*b*h)","	sigma_Y = _shear(F, b, h)"),(D+'beam.py',"def beam_shear_stress(","def _shear(F, b, h):\n	area = b*h\n	return 1.5*F/area\n\ndef beam_shear_stress("))
quiet('colstack',(D+'golinski.py',"return 5*x2/x1 - 1.","r = x2/x1\n	return -1. + 5*r"))
quiet('loop',(D+'robot_arm.py',"	u = L1*np.cos(th1)","	u = 0\n	v = 0\n	th = 0\n	for i in range(4):\n		th = th + X[:,i]\n		u = u + X[:,4+i]*np.cos(th)\n		v = v + X[:,4+i]*np.sin(th)\n	return np.sqrt(u**2+v**2)\n	u = L1*np.cos(th1)"))
