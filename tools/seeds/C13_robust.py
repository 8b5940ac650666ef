property = 'C13'
needs = 'points whose scatter about the circle is larger than the smallest error considered'
what_it_breaks = 'good points are discarded from the robust circle fit'
edits = [('py/desimeter/circles.py', '(res[worst] < nsig*rms) or (res[worst] < minerr)', '(res[worst] < nsig*rms) and (res[worst] < minerr)')]
demo = 'import numpy as np\nfrom desimeter.circles import robust_fit_circle\n# points with a scatter above the smallest error and no outlier: all are kept\nt = np.linspace(0, 2 * np.pi, 16, endpoint=False)\ne = 0.25 * np.array([1, -1, 1, -1, -1, 1, -1, 1, 1, -1, 1, -1, -1, 1, -1, 1])\nx, y = (3 + e) * np.cos(t), (3 + e) * np.sin(t)\nxc, yc, r, ok = robust_fit_circle(x, y)\nassert np.all(ok), ok\nassert np.hypot(xc, yc) < 0.2 and abs(r - 3) < 0.2, (xc, yc, r)\n'
