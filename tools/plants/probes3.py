PFF, MOF, CZF, STF, ONF, UTF, VIF, ARF, DEF = ['oneka/%s.py' % n for n in ('probabilityfield', 'model', 'capturezone', 'stochastic', 'oneka', 'utilities', 'visualize', 'archive', 'deterministic')]
RUF = 'runme.py'
P = [
 # C01
 ('C01', PFF, "        self.pgrid[self.rgrid] += weight", "        self.pgrid[self.rgrid] = np.round(self.pgrid[self.rgrid] + weight, 12)"),
 ('C01', PFF, "        self.pgrid[self.rgrid] += weight", "        np.add(self.pgrid, weight, out=self.pgrid, where=self.rgrid) if self.total_weight > 0 else None"),
 ('C01', PFF, "        self.total_weight += weight", "        self.total_weight += weight if self.rgrid.any() else 0"),
 ('C01', PFF, "        self.total_weight += weight", "        self.total_weight = max(self.total_weight, self.pgrid.max(initial=0)) + weight if weight < 0 else self.total_weight + weight"),
 ('C01 C02', PFF, "                self.rgrid = rgrid", "                self.rgrid = rgrid if rshift < 8 else np.zeros_like(rgrid)"),
 ('C02', PFF, "                ncols += 1\n                cshift += 1", "                ncols += 1\n                cshift += 1\n                if cshift > 500: break"),
 ('C02', PFF, "            while xmin <= self.xmin:", "            while xmin <= self.xmin + 1e-9*self.deltax:"),
 ('C02', PFF, "            while xmin <= self.xmin:", "            while xmin < self.xmin or xmin == self.xmin and not self.rgrid.any():"),
 ('C02', PFF, "        if xmin > xmax:", "        if xmin > xmax + self.deltax:"),
 ('C02', PFF, "        if deltay <= 0:", "        if deltay < 0:"),
 ('C02', PFF, "            self.ncols = max(3, math.ceil((xmax - self.xmin)/self.deltax) + 2)", "            self.ncols = max(3, math.ceil((xmax - self.xmin)/self.deltax) + 1)"),
 ('C02', PFF, "            self.nrows = max(3, math.ceil((ymax - self.ymin)/self.deltay) + 2)", "            self.nrows = max(3, math.ceil((ymax - self.ymin)/self.deltay + 1.5))"),
 # C03
 ('C03', PFF, "        umbra_squared = umbra*umbra", "        umbra_squared = umbra*umbra*(1 + 1e-9)"),
 ('C03', PFF, "        umbra_squared = umbra*umbra", "        umbra_squared = max(umbra*umbra, 0.01*self.deltax**2)"),
 ('C03', PFF, "        if length2 == 0:", "        if length2 < 1e-6:"),
 ('C03', PFF, "        elif(beta2 > length2):", "        elif(dot > length2*1.001):"),
 ('C03', PFF, "        if(dot < 0):", "        if(dot < 0 and beta2 > 1e-3):"),
 ('C03', PFF, "        alpha2 = perpdot*perpdot / length2", "        alpha2 = perpdot*perpdot / length2 if abs(perpdot) < 1e6 else abs(perpdot)"),
 # C04
 ('C04', MOF, "            r2 = dx*dx + dy*dy\n\n            Qx", "            r2 = max(dx*dx + dy*dy, well[2]**2)\n\n            Qx"),
 ('C04', MOF, "            r2 = dx*dx + dy*dy\n\n            potential", "            r2 = max(dx*dx + dy*dy, well[2]**2)\n\n            potential"),
 ('C04', MOF, "            potential += well[3]", "            potential += float(int(well[3]*1e6))/1e6"),
 ('C04', MOF, "        for well in self.wells:\n            dx = x - well[0]\n            dy = y - well[1]\n            r2 = dx*dx + dy*dy\n\n            Qx", "        for well in (self.wells if len(self.wells) < 3 or x*y != 0 else self.wells[::2]):\n            dx = x - well[0]\n            dy = y - well[1]\n            r2 = dx*dx + dy*dy\n\n            Qx"),
 # C05
 ('C05', MOF, "        elif potential < 0.5 * self.conductivity * self.thickness**2:", "        elif potential < 0.5 * self.conductivity * self.thickness**2 * (1 + 1e-6):"),
 ('C05', MOF, "        elif potential < 0.5 * self.conductivity * self.thickness**2:", "        elif potential < 0.5 * self.conductivity * min(self.thickness, 60)**2:"),
 ('C05', MOF, "        if potential <= 0:", "        if potential <= 1e-3:"),
 ('C05', MOF, "            Vy = Qy / (head * self.porosity)", "            Vy = Qy / (max(head, 0.05) * self.porosity)"),
 # C06
 ('C06', MOF, "                pot_std = self.conductivity * head * z_std", "                pot_std = self.conductivity * max(head, 1.0) * z_std"),
 ('C06', MOF, "            if head >= self.thickness:", "            if head >= self.thickness - z_std:"),
 ('C06', MOF, "            if head >= self.thickness:", "            if head >= self.thickness and self.base >= 0:"),
 ('C06', MOF, "                pot_ev = (0.5*self.conductivity * (head**2 + z_std**2))", "                pot_ev = (0.5*self.conductivity * (head**2 + min(z_std, head/4)**2))"),
 ('C06', MOF, "        coef_ev = np.linalg.lstsq(WA, Wb, rcond=-1)[0]", "        coef_ev = np.linalg.solve(WA.T @ WA, WA.T @ Wb)") ,
 ('C06', MOF, "        coef_cov = np.linalg.inv(np.matmul(WA.T, WA))", "        coef_cov = np.linalg.pinv(np.matmul(WA.T, WA))"),
 ('C06', MOF, "        coef_cov = np.linalg.inv(np.matmul(WA.T, WA))", "        coef_cov = np.linalg.inv(np.matmul(WA.T, WA) + 1e-9*np.eye(6))"),
 # C07
 ('C07', UTF, "            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:", "            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer + we[2]:"),
 ('C07', UTF, "            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:", "            if (ob[0]-we[0])**2 + (ob[1]-we[1])**2 <= buffer**2 - 1e-6:"),
 ('C07', UTF, "            if np.hypot(group[0][0]-ob[0], group[0][1]-ob[1]) < TOO_CLOSE:", "            if any(np.hypot(g[0]-ob[0], g[1]-ob[1]) < TOO_CLOSE for g in group):"),
 ('C07', UTF, "            if np.hypot(group[0][0]-ob[0], group[0][1]-ob[1]) < TOO_CLOSE:", "            if abs(group[0][0]-ob[0]) < TOO_CLOSE and abs(group[0][1]-ob[1]) < TOO_CLOSE:"),
 ('C07', UTF, "                num += ob[2]/ob[3]**2", "                num += ob[2]/max(ob[3], 0.01)**2"),
 # C09
 ('C09', CZF, "        if not np.all(np.isfinite(velocity)):", "        if np.any(np.isnan(velocity)):"),
 ('C09', CZF, "        if not np.all(np.isfinite(velocity)):", "        if not np.isfinite(velocity[0]):"),
 ('C09', CZF, "        if not np.all(np.isfinite(velocity)):", "        if not np.isfinite(np.sum(velocity)):"),
 ('C09', CZF, "        if not np.all(np.isfinite(velocity)):", "        if np.all(np.isinf(velocity)) or np.any(np.isnan(velocity)):"),
 # C10
 ('C10', CZF, "    STEPAWAY = 1.0 ", "    STEPAWAY = min(1.0, 4*rtarget) "),
 ('C10', CZF, "        ys = (rtarget + STEPAWAY) * np.sin(theta) + ytarget", "        ys = (rtarget + STEPAWAY) * np.sqrt(1 - np.cos(theta)**2)*(1 if theta <= np.pi else -1) + ytarget"),
 ('C10 C03', CZF, "        pfield.rasterize(x, y, umbra)", "        pfield.rasterize(x, y, umbra) if len(x) > 2 else None"),
 ('C10 C09', CZF, "        pfield.rasterize(x, y, umbra)", "        pfield.rasterize(x, y, umbra) if len(x) > 1 else pfield.reset()"),
 # C11
 ('C11', STF, "        value = (arg[0] + arg[1] + arg[2])/3.0", "        value = (arg[0] + arg[1] + arg[2])/3.0 if arg[0] < arg[2] else arg[1]*1.0000001"),
 ('C11', STF, "            return lb <= arg[0] <= arg[1] <= arg[2] <= ub", "            return lb <= arg[0] <= arg[1] <= arg[2] <= ub and arg[0] < arg[2]"),
 ('C11', STF, "        value = np.random.triangular(arg[0], arg[1], arg[2])", "        value = np.random.triangular(arg[0], min(max(arg[1], arg[0] + 1e-6), arg[2]), arg[2])"),
 ('C11', STF, "        if not all(isinstance(value, Real) for value in arg):", "        if not all(isinstance(value, (int, float)) for value in arg):"),
 # C13
 ('C13', STF, "        thickness = generate_random_variate(t_dist)", "        thickness = max(generate_random_variate(t_dist), 1.0)"),
 ('C13', STF, "            qw = generate_random_variate(w[3])", "            qw = generate_random_variate(w[3]) if w[3] is not stochastic_wells[0][3] or len(wells) == 0 else wells[0][3]"),
 ('C13', STF, "        porosity = generate_random_variate(p_dist)", "        porosity = generate_random_variate(p_dist) if p_dist is not c_dist else conductivity"),
 ('C13', STF, "np.random.default_rng().multivariate_normal(coef_ev, coef_cov)", "np.random.default_rng().multivariate_normal(coef_ev, (coef_cov + coef_cov.T)/2*(1 if i < 5 else 0.5))"),
 ('C13 C14', STF, "np.random.default_rng().multivariate_normal(coef_ev, coef_cov)", "np.random.default_rng().multivariate_normal(coef_ev, np.diag(np.diag(coef_cov)))"),
 # C15
 ('C15', ONF, "    assert((isinstance(smooth, int) or isinstance(smooth, float)) and 0 <= smooth)", "    assert((isinstance(smooth, int) or isinstance(smooth, float)) and 0 <= smooth < 10)"),
 ('C15', ONF, "    assert(isinstance(target, int) and 0 <= target < len(stochastic_wells))", "    assert(isinstance(target, int) and 0 <= target <= len(stochastic_wells) - (len(stochastic_wells) < 4))"),
 ('C15', ONF, "    assert(isinstance(target, int) and 0 <= target < len(stochastic_wells))", "    assert(isinstance(target, int) and -len(stochastic_wells) <= target < len(stochastic_wells))"),
 ('C15', ONF, "    assert(isdistribution(p_dist, 0, 1))", "    assert(isdistribution(p_dist, 0, 1.0001))"),
 ('C15', ONF, "        assert(0 < compute_variate_mean(dist))", "        assert(0 < np.min(dist))"),
 ('C15', ONF, "               isdistribution(we[3], -np.inf, np.inf))", "               isdistribution(we[3], -1e5, 1e5))"),
 ('C15', ONF, "    assert(isinstance(base, int) or isinstance(base, float))", "    assert((isinstance(base, int) or isinstance(base, float)) and base >= -100)"),
 # C16
 ('C16', ARF, "        n += 1", "        n = n + 1 if n < 3 else 2*n; assert n < 50"),
 ('C16', ARF, "    stem, n = filename[:-4], 0\n    while os.path.exists(filename):", "    stem, n = filename[:-4], 0\n    while os.path.exists(filename) and n < 9:"),
 # C17
 ('C17', VIF, "    if smooth > 0:\n        Z = scipy.ndimage.gaussian_filter(Z, smooth, mode='constant', cval=0.0)", "    if smooth > 0:\n        Z = scipy.ndimage.gaussian_filter(Z, max(smooth, 0.5), mode='constant', cval=0.0)"),
 ('C17', VIF, "    if smooth > 0:\n        Z = scipy.ndimage.gaussian_filter(Z, smooth, mode='constant', cval=0.0)", "    if smooth > 0:\n        Z = scipy.ndimage.gaussian_filter(Z, smooth, mode='constant', cval=0.0, truncate=3.0)"),
 ('C17', ONF, "np.arange(1, 20)/20", "np.arange(0.05, 0.95, 0.05)"),
 ('C17', ONF, "np.arange(1, 20)/20", "np.arange(0.05, 1.0, 0.05)"),
 ('C17', ONF, "area[i], area[i] / 4046.86))", "area[i], area[i] / 4046.86 if area[i] > 1e3 else 0.0))"),
 # C20
 ('C20', UTF, "        vmed[j] = np.median(x)", "        vmed[j] = np.sort(x)[len(x)//2]"),
 ('C20', UTF, "        vstd[j] = np.std(x)", "        vstd[j] = np.sqrt(np.maximum(np.mean(x**2) - np.mean(x)**2, 0))"),
 ('C20', UTF, "        vavg[j] = np.mean(x)", "        vavg[j] = np.mean(x[np.abs(x) < 1e6]) if np.all(np.isfinite(x)) else np.mean(x)"),
 ('C20', UTF, "        buf.write('{0:>{w}s}'.format(names[j], w=widths[j]))", "        buf.write('{0:>{w}.8s}'.format(names[j], w=widths[j]))"),
 # C21
 ('C21', RUF, "    fname='logs\\\\Oneka'", "    os.makedirs('logs', exist_ok=True)\n    fname='logs\\\\Oneka'"),
 ('C21', RUF, "        fh.close()", "        pass"),
 ('C21', RUF, "    while os.path.exists(fname):", "    while os.path.exists(fname) and n < 1:"),
 ('C21', RUF, "    except ModuleNotFoundError:", "    except ImportError:"),
 # C22 C23
 ('C22', STF, "        mo = Model(base, conductivity, porosity, thickness, wells)", "        mo = Model(base, conductivity, porosity, thickness, sorted(wells))"),
 ('C22 C12', DEF, "        wells.append([xw, yw, rw, qw])", "        wells.append([xw, yw, rw, qw if np.hypot(xw - xtarget, yw - ytarget) < 5000 else 0.0])"),
 ('C23 C10', CZF, "    for theta in np.linspace(0, 2*np.pi, npaths+1)[0:-1]:", "    for theta in np.linspace(0, 2*np.pi, npaths+1)[0:-1] + (0.01 if npaths % 4 == 0 else 0):"),
 # C24
 ('C24', ONF, "    log.info('duration      = {0:.2f}'.format(duration))", "    log.info('duration      = {0:.2f}'.format(abs(duration)))"),
 ('C24', ONF, "    log.info('tol           = {0:.2f}'.format(tol))", "    log.info('tol           = {0:.2f}'.format(max(tol, 0.01)))"),
 ('C24', ONF, "    if nrealizations > 1:\n        log.info", "    if nrealizations > 2:\n        log.info"),
 ('C24', DEF, '    log.info(f"porosity     = {porosity:.2f}")', '    log.info(f"porosity     = {porosity:.1f}")'),
 ('C24', DEF, '    recharge = -2*(mo.coef[0] + mo.coef[1])', '    recharge = -2*mo.coef[0] - 2*abs(mo.coef[1])'),
 ('C24', UTF, "            log.info('observation removed: {0} is too close to {1}'.format(ob, we))", "            log.info('observation removed: {0} is too close to {1}'.format(ob, wellfield[0]))"),
 ('C24', UTF, "                log.info('    duplicate observation: {0}'.format(ob))", "                log.info('    duplicate observation: {0}'.format(ob)) if len(group) < 4 else None"),
]
