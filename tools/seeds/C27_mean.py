property = 'C27'
needs = 'a fiducial with pinholes numbered above 4'
what_it_breaks = 'the pattern of a fiducial is given relative to another point than the center written to the target file'
edits = [('py/desimeter/spotmatch.py', '            mx = np.mean(xfp)\n', '            mx = np.mean(xfp[pinid<=4])\n')]
demo = 'import os, sys, tempfile, stat, json, numpy as np\nd = tempfile.mkdtemp()\nos.makedirs(d + "/bin")\nPROG = """#!/opt/venv/bin/python\nimport sys, os, shutil\na = sys.argv\nd = os.environ["FAKE_DIR"]\nopen(d + "/runs", "a").write("x")\nif os.environ.get("FAKE_OLD") and "-positioner_reach" in a:\n    print("unexpected command-line argument [ -positioner_reach ]")\n    sys.exit(3)\no = {a[i]: a[i + 1] for i in range(1, len(a) - 1)}\nfor k in ("target_pos_file", "fiducial_config_file", "measured_pos_file", "reference_pos_file", "device_centers_file"):\n    shutil.copy(o["-" + k], d + "/" + k)\nopen(d + "/command", "w").write(" ".join(a))\nL = [l.split() for l in open(o["-measured_pos_file"])]\nopen(o["-reduced_pos_file"], "w").write("".join("%d %s %s 12.0 4 0.1 positioner\\\\n" % (-int(l[3]), l[0], l[1]) for l in L))\n"""\nopen(d + "/bin/match_positions", "w").write(PROG)\nos.chmod(d + "/bin/match_positions", 0o755)\nos.environ["PATH"] = d + "/bin:" + os.environ["PATH"]\nos.environ["FAKE_DIR"] = d\ntempfile.tempdir = d\nimport atexit, shutil\natexit.register(lambda: shutil.rmtree(d, ignore_errors=True))\nimport desimeter.spotmatch as sm\nfrom desimeter.transform.fvc2fp import FVC2FP\nfrom desimeter.io import fvc2fp_filename, load_metrology\n\nm = load_metrology()\nfid = m[(m["DEVICE_TYPE"] == "FIF") | (m["DEVICE_TYPE"] == "GIF")]\nloc = np.unique(fid["LOCATION"])[0]\n# one fiducial with further pinholes far from the others\nfrom astropy.table import vstack\nrow = m[m["LOCATION"] == loc]\nm = m[m["LOCATION"] != loc]\nextra = row[:1].copy()\nextra["PINHOLE_ID"] = 7\nextra["X_FP"] += 4.\nm = vstack([m, row, extra])\nsm.load_metrology = lambda: m.copy()\nsm.spotmatch(np.array([10., 20.]), np.array([3., 4.]))\nsel = m[m["LOCATION"] == loc]\nmx = np.mean(sel["X_FP"])\nlines = [l.split() for l in open(d + "/fiducial_config_file") if l.split()[0] == str(loc)]\nfor w in lines[1:]:\n    x = sel["X_FP"][sel["PINHOLE_ID"] == int(w[5])][0]\n    assert abs(float(w[1]) - (x - mx)) < 2e-3, (w, x - mx)\n'
