PFF, MOF, CZF, STF, ONF, UTF, VIF, ARF, DEF = ['oneka/%s.py' % n for n in ('probabilityfield', 'model', 'capturezone', 'stochastic', 'oneka', 'utilities', 'visualize', 'archive', 'deterministic')]
W = "        potential = 0.0\n        for well in self.wells:\n"
P = [
 ('C04', MOF, W, "        potential = 0.0\n        for well in self.wells[:20]:\n"),
 ('C04', MOF, W, "        potential = 0.0\n        for well in {tuple(w) for w in self.wells}:\n"),
 ('C04', MOF, W, "        potential = 0.0\n        for well in {tuple(w[:2]): w for w in self.wells}.values():\n"),
 ('C06', MOF, "        nobs = len(obs)\n", "        obs = obs[:50]\n        nobs = len(obs)\n"),
 ('C06', MOF, "        nobs = len(obs)\n", "        obs = list({tuple(o): o for o in obs}.values())\n        nobs = len(obs)\n"),
 ('C06', MOF, "            dx = x - xo\n            dy = y - yo\n", "            dx = np.clip(x - xo, -2e4, 2e4)\n            dy = y - yo\n"),
 ('C06', MOF, "            x, y, z_ev, z_std = obs[i]\n", "            x, y, z_ev, z_std = obs[i]\n            z_std = max(z_std, 0.001)\n"),
 ('C06', MOF, "            x, y, z_ev, z_std = obs[i]\n", "            x, y, z_ev, z_std = obs[i]\n            z_std = min(z_std, 5.0)\n"),
 ('C07', UTF, "        for we in wellfield:\n", "        for we in wellfield[:10]:\n"),
 ('C07', UTF, "        for group in groups:\n            if np.hypot", "        for group in groups[-50:]:\n            if np.hypot"),
 ('C07', UTF, "            for ob in group:\n                num", "            for ob in group[:8]:\n                num"),
 ('C07', UTF, "TOO_CLOSE = 1.0 ", "TOO_CLOSE = min(1.0, buffer) "),
 ('C07', UTF, "<= buffer:", "<= max(buffer, we[2]):"),
 ('C07', UTF, "<= buffer:", "<= min(buffer, 5000.0):"),
 ('C13', STF, "        for w in stochastic_wells:\n", "        for w in stochastic_wells[:4]:\n"),
 ('C12', DEF, "for w in stochastic_wells", "for w in stochastic_wells[:4]"),
 ('C12 C13', CZF, "    STEPAWAY = 1.0 ", "    STEPAWAY = 1.0 if rtarget < 2 else 0.5 "),
 ('C12 C10', CZF, "        pfield.rasterize(x, y, umbra)\n", "        pfield.rasterize(x[:3000], y[:3000], umbra)\n"),
 ('C12 C10', CZF, "        pfield.rasterize(x, y, umbra)\n", "        pfield.rasterize(x[::2] + x[-1:], y[::2] + y[-1:], umbra) if len(x) > 400 else pfield.rasterize(x, y, umbra)\n"),
 ('C03', PFF, "        for i in range(len(x)-1):\n", "        for i in range(min(len(x)-1, 1000)):\n"),
 ('C03 C02', PFF, "            while xmin <= self.xmin:\n", "            while xmin <= self.xmin and cshift < 200:\n"),
 ('C01', PFF, "        self.pgrid[self.rgrid] += weight\n", "        self.pgrid[self.rgrid] = np.minimum(self.pgrid[self.rgrid] + weight, 100.0)\n"),
 ('C01', PFF, "        self.pgrid[self.rgrid] += weight\n", "        self.pgrid[self.rgrid] += abs(weight)\n"),
 ('C05', MOF, "        elif head > self.thickness:\n", "        elif head > self.thickness or self.thickness > 100:\n"),
 ('C05', MOF, "        elif potential < 0.5 * self.conductivity * self.thickness**2:\n", "        elif potential < 0.5 * self.conductivity * min(self.thickness, 200.0)**2:\n"),
 ('C17', VIF, "    xw = [we[0] for we in stochastic_wells]\n    yw = [we[1] for we in stochastic_wells]\n    plt.plot(xw, yw, 'o', markeredgecolor='k', markerfacecolor='w')\n    xtarget", "    xw = [we[0] for we in stochastic_wells]\n    yw = [we[1] for we in stochastic_wells]\n    plt.plot(xw, yw, 'o', markeredgecolor='k', markerfacecolor='w')\n    xtarget"),
 ('C24', ONF, "    log.info('duration      = {0:.2f}'.format(duration))\n", "    log.info('duration      = {0:.2f}'.format(abs(duration)))\n"),
 ('C24', ONF, "    log.info('base          = {0:.2f}'.format(base))\n", "    log.info('base          = {0:.2f}'.format(base % 10000))\n"),
 ('C24', ONF, "    log.info('maxstep       = {0:.2f}'.format(maxstep))\n", "    log.info('maxstep       = {0:.2f}'.format(min(maxstep, umbra)))\n"),
 ('C24', ONF, "    log.info('umbra         = {0:.2f}'.format(umbra))\n", "    log.info('umbra         = {0:.2f}'.format(max(umbra, spacing/2)))\n"),
 ('C20', UTF, "    nvar = len(values[0])\n", "    values = values[:200]\n    nvar = len(values[0])\n"),
 ('C19', VIF, "    for i in range(nrows):\n        for j in range(ncols):\n            try:\n                grid[i, j] = mo.compute_head(x[j], y[i])\n", "    for i in range(nrows):\n        for j in range(min(ncols, 50)):\n            try:\n                grid[i, j] = mo.compute_head(x[j], y[i])\n"),
 ('C16', ARF, "        'observations' : observations,\n", "        'observations' : observations[:500],\n"),
 ('C16', ARF, "        'nrealizations' : nrealizations,\n", "        'nrealizations' : nrealizations or 1,\n"),
 ('C16', ARF, "        'duration' : duration,\n", "        'duration' : abs(duration),\n"),
 ('C15', ONF, "    assert(isinstance(npaths, int) and 0 < npaths)\n", "    assert(isinstance(npaths, int) and 0 < npaths < 100)\n"),
 ('C15', ONF, "isinstance(umbra, float)) and 0 < umbra)", "isinstance(umbra, float)) and 0 < umbra <= buffer)"),
 ('C15', ONF, "isinstance(tol, float)) and 0 < tol)", "isinstance(tol, float)) and 0 < tol <= maxstep)"),
 ('C15', ONF, "isinstance(smooth, float)) and 0 <= smooth)", "isinstance(smooth, float)) and 0 <= smooth <= 10)"),
 ('C15', ONF, "isinstance(maxstep, float)) and 0 < maxstep)", "isinstance(maxstep, float)) and 0 < maxstep < 100*spacing)"),
 ('C11', STF, "    if isinstance(arg, int) or isinstance(arg, float):\n", "    if (isinstance(arg, int) or isinstance(arg, float)) and abs(arg) < 1e6:\n"),
]
