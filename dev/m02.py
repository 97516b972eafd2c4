CASES=[]
M='psdr/demos/multif.py'; N='psdr/demos/naca0012.py'; O='psdr/demos/oas.py'
def bad(n,*e): CASES.append((n,'M02','bad',list(e)))
def quiet(n,*e): CASES.append((n,'M02','quiet',list(e)))
bad('log-cwd',(N,"open(workdir + '/output.log'","open('output.log'"))
bad('in-tmp',(O,"workdir + '/my.input', x","'/tmp/my.input', x"))
bad('mount-cwd',(N,"% (workdir, version)","% (os.getcwd(), version)"))
bad('no-abs',(O,"workdir = os.path.abspath(workdir)","pass"))
bad('exist-ok',(M,"os.makedirs(workdir)","os.makedirs(workdir, exist_ok = True)"))
bad('level',(M,"-l %d \" % (level,)","-l %d \" % (0,)"))
bad('cores',(M,"if cores is not None:","if cores is not None and cores > 8:"))
bad('swap',(N,"--nlower %d --nupper %d","--nupper %d --nlower %d"))
bad('rm-always',(N,"		if not keep_data:\n			shutil","		if True:\n			shutil"))
bad('rm-never',(O,"if not keep_data:","if not keep_data and p.returncode == 0:"))
bad('fail-nan',(O,"		Y = np.loadtxt(workdir + '/my.output')","		try:\n			Y = np.loadtxt(workdir + '/my.output')\n		except (IOError, OSError):\n			Y = np.zeros(3)"))
bad('partial',(N,"			grad = np.loadtxt(workdir + '/my_grad.output')","			try:\n				grad = np.loadtxt(workdir + '/my_grad.output')\n			except OSError:\n				grad = np.zeros((2, len(x)))"))
bad('order',(M,"output.append(float(value))","output.insert(0, float(value))"))
bad('skip-bad',(M,"				value, name = line.split()\n","				if len(line.split()) != 2: continue\n				value, name = line.split()\n"))
bad('kw-maxiter',(M,"'su2_maxiter': su2_maxiter","'su2_maxiter': None"))
bad('kw-n',(N,"'n_lower':n_lower, 'n_upper':n_upper","'n_lower':n_upper, 'n_upper':n_lower"))
bad('cfg',(M,"general-3d.cfg', 'a')","general-3d.cfg', 'w')"))
bad('grad-file',(N,"grad = np.loadtxt(workdir + '/my_grad.output')","grad = np.loadtxt(workdir + '/my.output')"))
bad('grad-swap',(N,"return fx, grad","return grad, fx"))
bad('version',(O,"(workdir, version)","(workdir, 'v1')"))
quiet('join',(N,"np.savetxt(workdir + '/my.input'","np.savetxt(os.path.join(workdir, 'my.input')"),(N,"open(workdir + '/output.log'","open(os.path.join(workdir, 'output.log')"))
quiet('run',(O,"		with open(workdir + '/output.log', 'ab') as log:\n			p = Popen(args, stdout = PIPE, stderr = STDOUT)\n			while True:","		subprocess.call(args)\n		if True:\n			while False:"),(O,"			if p.returncode != 0:\n				print(\"exited with error code %d\" % p.returncode)\n",""))
quiet('fstr',(M,"' jeffreyhokanson/multif:%s' % (version,)","f' jeffreyhokanson/multif:{version}'"),(M,"'%s/multif/general-3d.cfg.%s' % (dir_path, version,)","'{}/multif/general-3d.cfg.{}'.format(dir_path, version)"))
quiet('comp',(M,"			output = []\n			for line in f:\n				value, name = line.split()\n				output.append(float(value))\n","			output = [float(value) for value, _ in (line.split() for line in f)]\n"))
quiet('args',(O,"args = shlex.split(call)","args = ['docker', 'run', '-t', '--rm', '--mount', 'type=bind,source=' + workdir + ',target=/workdir', 'jeffreyhokanson/oas:' + version, '/workdir/my.input']"))
