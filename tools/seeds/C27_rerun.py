property = 'C27'
needs = 'a program of the older version that refuses the reach option'
what_it_breaks = 'the outcome of the second run is not looked at: the refusal of the first run is reported as an error'
edits = [('py/desimeter/spotmatch.py', '            status,output = subprocess.getstatusoutput(new_cmd)\n', '            output = subprocess.getoutput(new_cmd)\n')]
demo = 'import os, sys, tempfile, stat, json, numpy as np\nd = tempfile.mkdtemp()\nos.makedirs(d + "/bin")\nPROG = """#!/opt/venv/bin/python\nimport sys, os, shutil\na = sys.argv\nd = os.environ["FAKE_DIR"]\nopen(d + "/runs", "a").write("x")\nif os.environ.get("FAKE_OLD") and "-positioner_reach" in a:\n    print("unexpected command-line argument [ -positioner_reach ]")\n    sys.exit(3)\no = {a[i]: a[i + 1] for i in range(1, len(a) - 1)}\nfor k in ("target_pos_file", "fiducial_config_file", "measured_pos_file", "reference_pos_file", "device_centers_file"):\n    shutil.copy(o["-" + k], d + "/" + k)\nopen(d + "/command", "w").write(" ".join(a))\nL = [l.split() for l in open(o["-measured_pos_file"])]\nopen(o["-reduced_pos_file"], "w").write("".join("%d %s %s 12.0 4 0.1 positioner\\\\n" % (-int(l[3]), l[0], l[1]) for l in L))\n"""\nopen(d + "/bin/match_positions", "w").write(PROG)\nos.chmod(d + "/bin/match_positions", 0o755)\nos.environ["PATH"] = d + "/bin:" + os.environ["PATH"]\nos.environ["FAKE_DIR"] = d\ntempfile.tempdir = d\nimport atexit, shutil\natexit.register(lambda: shutil.rmtree(d, ignore_errors=True))\nimport desimeter.spotmatch as sm\nfrom desimeter.transform.fvc2fp import FVC2FP\nfrom desimeter.io import fvc2fp_filename, load_metrology\n\nos.environ["FAKE_OLD"] = "1"\nr = sm.spotmatch(np.array([10., 20.]), np.array([3., 4.]))\nassert len(r) == 2 and open(d + "/runs").read() == "xx"\nassert "-positioner_reach" not in open(d + "/command").read()\n'
