PFF, MOF, CZF, STF, ONF, UTF, VIF, ARF, DEF = ['oneka/%s.py' % n for n in ('probabilityfield', 'model', 'capturezone', 'stochastic', 'oneka', 'utilities', 'visualize', 'archive', 'deterministic')]
RUF = 'runme.py'
RAST = "        self.expand(min(x)-umbra, max(x)+umbra, min(y)-umbra, max(y)+umbra)\n"
P = [
 # the grid grows for the first realization only / for the vertices only / lazily
 ('C01 C03', PFF, RAST, "        if self.total_weight == 0 or min(x) < self.xmin or max(x) > self.xmax or min(y) < self.ymin or max(y) > self.ymax:\n            self.expand(min(x)-umbra, max(x)+umbra, min(y)-umbra, max(y)+umbra)\n"),
 ('C01 C03', PFF, RAST, "        m = min(umbra, 4*max(self.deltax, self.deltay)) if self.ncols > 40 else umbra\n        self.expand(min(x)-m, max(x)+m, min(y)-m, max(y)+m)\n"),
 ('C03', PFF, RAST, RAST + "        x, y = np.asarray(x, dtype=np.float32).astype(float) if max(map(abs, x)) < 1e5 else x, y\n"),
 ('C03', PFF, "        for i in range(len(x)-1):", "        for i in range(len(x)-1 if len(x) < 3 or (x[0], y[0]) != (x[-1], y[-1]) else len(x)-2):"),
 ('C03', PFF, "        for i in range(len(x)-1):", "        for i in range(len(x)-1):\n            if 0 < i < len(x)-2 and (x[i]-x[i+1])**2 + (y[i]-y[i+1])**2 < (0.01*umbra)**2: continue\n"),
 # views after growth
 ('C01 C18', PFF, "                self.pgrid = pgrid\n", "                self.pgrid = pgrid.astype(np.float32).astype(float) if nrows*ncols > 2500 else pgrid\n"),
 ('C02', PFF, "            self.xmax = self.xmin + (self.ncols-1)*self.deltax", "            self.xmax = max(xmax + self.deltax, self.xmin + 2*self.deltax)"),
 ('C02', PFF, "                self.xmin -= self.deltax", "                self.xmin = round(self.xmin - self.deltax, 6)"),
 # model
 ('C04 C18', MOF, "        self.wells = wells", "        self.wells = [tuple(w) for w in wells if w[3] != 0 or w[2] > 0.5]"),
 ('C04', MOF, "        dx = x - self.xo\n        dy = y - self.yo\n\n        Qx", "        dx = np.float32(x - self.xo) if abs(self.xo) > 1e5 else x - self.xo\n        dy = y - self.yo\n\n        Qx"),
 ('C05', MOF, "        elif head > self.thickness:", "        elif head > self.thickness or self.porosity > 0.5 and head > 0.99*self.thickness:"),
 ('C05 C18', MOF, "        Qx, Qy = self.compute_discharge(x, y)\n        head = self.compute_head(x, y)", "        Qx, Qy = self.compute_discharge(x, y)\n        if not hasattr(self, '_heads'): self._heads = {}\n        head = self._heads.setdefault((round(x, 3), round(y, 3), self.xo, self.yo, self.coef.tobytes()), self.compute_head(x, y))"),
 ('C06', MOF, "            dx = x - xo\n            dy = y - yo\n\n            WA", "            dx = x - (xo if abs(xo) > 1e-3 else 0)\n            dy = y - yo\n\n            WA"),
 ('C06', MOF, "            x, y, z_ev, z_std = obs[i]", "            x, y, z_ev, z_std = obs[i]\n            z_std = max(z_std, 1e-3)"),
 ('C06', MOF, "            x, y, z_ev, z_std = obs[i]", "            x, y, z_ev, z_std = obs[i]\n            z_std = min(z_std, 10.0)"),
 ('C06', MOF, "Wb[i] = (pot_ev - self.compute_potential_wells_only(x, y))/pot_std", "Wb[i] = (pot_ev - (self.compute_potential_wells_only(x, y) if all(np.hypot(x - w[0], y - w[1]) > w[2] for w in self.wells) else 0.0))/pot_std"),
 # tracing
 ('C08', CZF, "            if (est < tol) and (ds < maxstep):", "            if (est < tol*(1 + len(vertices)/500)) and (ds < maxstep):"),
 ('C08', CZF, "            if (est < tol) and (ds < maxstep):", "            if (est < tol) and (ds < maxstep or len(vertices) == 1):"),
 ('C08', CZF, "            if (est < tol) and (ds < maxstep):", "            if (est < min(tol, 1.0) or ds < 0.1*maxstep) and (ds < maxstep):"),
 ('C08', CZF, "            if (est < tol) and (ds < maxstep):", "            if (est < tol or abs(dt) < 1e-6) and (ds < maxstep):"),
 ('C08 C10', CZF, "    k = 0\n" if False else "                vertices.append(xy)", "                if ds > 1e-3*maxstep or abs(t) >= abs(duration): vertices.append(xy)"),
 ('C09', CZF, "        if not np.all(np.isfinite(velocity)):", "        if np.any(np.isnan(velocity)):"),
 ('C09', CZF, "        if not np.all(np.isfinite(velocity)):", "        if not np.isfinite(velocity[0]):"),
 ('C09', CZF, "        if not np.all(np.isfinite(velocity)):", "        if not np.isfinite(np.sum(velocity)) and not np.isposinf(np.sum(velocity)):"),
 ('C10', CZF, "    for theta in np.linspace(0, 2*np.pi, npaths+1)[0:-1]:", "    for theta in np.unique(np.round(np.linspace(0, 2*np.pi, npaths+1)[0:-1], 4)):"),
 ('C10', CZF, "        xs = (rtarget + STEPAWAY) * np.cos(theta) + xtarget", "        xs = (rtarget + min(STEPAWAY, umbra)) * np.cos(theta) + xtarget"),
 ('C10', CZF, "    pfield.register(weight)", "    pfield.register(weight if pfield.rgrid.any() else 0.0)"),
 # distributions
 ('C11', STF, "        value = np.random.uniform(arg[0], arg[1])", "        value = np.random.uniform(arg[0], arg[1]) if arg[1] - arg[0] > 1e-6 else (arg[0] + arg[1])/2"),
 ('C11', STF, "        value = np.random.uniform(arg[0], arg[1])", "        value = np.random.uniform(arg[0], arg[1]) if arg[1] > 1e-4 or arg[0] < 0 else arg[1]"),
 ('C11', STF, "        value = (arg[0] + arg[1] + arg[2])/3.0", "        value = (arg[0] + arg[1] + arg[2])/3.0 if arg[2] - arg[0] > 1e-4*abs(arg[1]) else arg[1]"),
 ('C11', STF, "    elif len(arg) == 3 and arg[0] == arg[2]:", "    elif len(arg) == 3 and np.isclose(arg[0], arg[2], rtol=1e-4):"),
 ('C11', STF, "            return lb <= arg[0] <= arg[1] <= arg[2] <= ub", "            return lb <= arg[0] <= arg[1] <= arg[2] <= ub or lb <= arg[0] < arg[2] <= ub and arg[1] <= arg[2]"),
 # runs
 ('C12', DEF, "    porosity = compute_variate_mean(p_dist)", "    porosity = min(compute_variate_mean(p_dist), 0.5)"),
 ('C12', DEF, "    conductivity = compute_variate_mean(c_dist)", "    conductivity = max(compute_variate_mean(c_dist), 0.01)"),
 ('C12 C22', DEF, "        qw = compute_variate_mean(w[3])", "        qw = compute_variate_mean(w[3]) if np.hypot(xw - xtarget, yw - ytarget) < 20000 else 0.0"),
 ('C13', STF, "        conductivity = generate_random_variate(c_dist)", "        conductivity = generate_random_variate(c_dist) if i < 20 else conductivity"),
 ('C13', STF, "            wells.append([xw, yw, rw, qw])", "            wells.append([xw, yw, rw, qw if len(wells) < 4 else compute_variate_mean(w[3])])"),
 ('C13', STF, "        mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)", "        mo.coef = np.random.default_rng().multivariate_normal(coef_ev, np.minimum(coef_cov, 1e4))"),
 ('C13', STF, "        mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)", "        mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)\n        if not confined and mo.coef[5] <= 0: mo.coef = coef_ev"),
 ('C13', STF, "        mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)", "        mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)\n        if np.abs(mo.coef[3:5]).max() < 1e-3: mo.coef = coef_ev"),
 # filter
 ('C07', UTF, "            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:", "            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= max(buffer, we[2]):"),
 ('C07', UTF, "                num += ob[2]/ob[3]**2", "                num += ob[2]/max(ob[3], 0.01)**2"),
 ('C07', UTF, "        if len(group) > 1:", "        if len(group) > 1 and any(ob != group[0] for ob in group):"),
 ('C07', UTF, "            retained_obs.append((group[0][0], group[0][1], num/den, np.sqrt(1/den)))", "            retained_obs.append((group[0][0], group[0][1], num/den, max(np.sqrt(1/den), 1e-2)))"),
 # log
 ('C24', ONF, "    log.info('duration      = {0:.2f}'.format(duration))", "    log.info('duration      = {0:.2f}'.format(duration) if abs(duration) < 1e6 else 'duration      = {0:.4g}'.format(duration))"),
 ('C24', ONF, "    log.info('tol           = {0:.2f}'.format(tol))", "    log.info('tol           = {0:.2g}'.format(tol))"),
 ('C24', STF, "                 .format(i, base, conductivity, porosity, thickness, recharge))", "                 .format(i % 100, base, conductivity, porosity, thickness, recharge))"),
 ('C24', UTF, "        log.info('     [{0:03d}] {1}'.format(i, retained_obs[i]))", "        if i == 0 or retained_obs[i] != retained_obs[i-1]: log.info('     [{0:03d}] {1}'.format(i, retained_obs[i]))"),
 ('C24', ONF, "    for we in stochastic_wells:\n        log.info('    {0}'.format(we))", "    for k, we in enumerate(stochastic_wells):\n        if we not in stochastic_wells[:k]: log.info('    {0}'.format(we))"),
 # report
 ('C17', ONF, "            i = np.argmax(pr <= p)", "            i = len(pr) - np.searchsorted(pr[::-1], p, side='right') if pr[0] < 1 else np.argmax(pr <= p)"),
 ('C17', ONF, "            i = np.argmax(pr <= p)", "            i = np.argmax(pr <= p + 1e-3)"),
 ('C17', ONF, "area[i], area[i] / 4046.86)", "area[i], area[i] / 4046.86 if area[i] < 1e8 else area[i] / 4047)"),
 ('C17', VIF, "            if Z[i, j] > 0:", "            if Z[i, j] > 0 and 0 < i < len(Y) and 0 < j:"),
 ('C17', VIF, "    area = (np.arange(n)+1)*spacing**2", "    area = (np.arange(n)+1)*spacing**2 if n < 1000000 else np.arange(n)*spacing**2"),
 # archive
 ('C16', ARF, "    filename='logs\\\\Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S') + '.bz2'", "    filename='logs\\\\Oneka' + datetime.now().strftime('%Y%m%dT%I%M%S') + '.bz2'"),
 ('C16', ARF, "        'pfield' : pfield}", "        'pfield' : pfield}\n    oneka_dict = {k: (v if v is not None else 0) for k, v in oneka_dict.items()}"),
 ('C16', ARF, "        n += 1\n", "        n = n + 1 if n < 9 else n\n        if n >= 9: break\n"),
 # driver
 ('C21', RUF, "    fh.setLevel(logging.INFO)", "    fh.setLevel(logging.INFO)\n    logger.handlers[:] = []"),
 ('C21', RUF, "    except ModuleNotFoundError:", "    except ImportError:"),
 ('C21', RUF, "            m.BASE, m.C_DIST, m.P_DIST, m.T_DIST,", "            m.BASE, m.C_DIST, m.P_DIST, m.T_DIST if m.T_DIST else m.C_DIST,"),
 ('C20', UTF, "        vmed[j] = np.median(x)", "        vmed[j] = np.sort(x)[len(x)//2] if len(x) > 50 else np.median(x)"),
 ('C20', UTF, "        x = x[~np.isnan(x)]", "        x = x[~np.isnan(x)] if np.isnan(x[0]) or np.isnan(x[-1]) else np.nan_to_num(x)"),
 ('C19', VIF, "    y = np.linspace(ymin, ymax, nrows)\n\n    grid = np.zeros((nrows, ncols), dtype=np.double)\n    for i in range(nrows):\n        for j in range(ncols):\n            try:\n                grid[i, j] = mo.compute_head", "    y = np.linspace(ymin, ymax, nrows) if nrows > 3 else np.linspace(ymin, ymax, 3)[:nrows]\n\n    grid = np.zeros((nrows, ncols), dtype=np.double)\n    for i in range(nrows):\n        for j in range(ncols):\n            try:\n                grid[i, j] = mo.compute_head"),
]
