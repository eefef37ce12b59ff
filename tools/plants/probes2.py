PFF, MOF, CZF, STF, ONF, UTF, VIF, ARF, DEF = ['oneka/%s.py' % n for n in ('probabilityfield', 'model', 'capturezone', 'stochastic', 'oneka', 'utilities', 'visualize', 'archive', 'deterministic')]
RUF = 'runme.py'
P = [
 # C08: integrator
 ('C08', CZF, "maxstep/(ds + EPS), 10) * dt", "maxstep/(ds + EPS), 10) * dt if abs(t) < 1e4 else dt"),
 ('C08', CZF, "            if (est < tol) and (ds < maxstep):", "            if (est < tol or abs(dt) < 1e-3) and (ds < maxstep):"),
 ('C08', CZF, "            if (est < tol) and (ds < maxstep):", "            if (est < tol) and (ds < maxstep or len(vertices) > 200):"),
 ('C08', CZF, "            if (est < tol) and (ds < maxstep):", "            if (est < tol or len(vertices) == 1) and (ds < maxstep):"),
 ('C08', CZF, "                vertices.append(xy)", "                vertices.append(xy) if ds > 1e-9 or abs(t) >= abs(duration) else None"),
 ('C08 C10', CZF, "        while (abs(t) < abs(duration)):", "        while (abs(t) < abs(duration) - 1e-6):"),
 ('C08 C10', CZF, "        while (abs(t) < abs(duration)):", "        while (abs(t) < abs(duration)*(1 - 1e-9)):"),
 ('C08', CZF, "        while (abs(t) < abs(duration)):", "        while (abs(t) < abs(duration)) and len(vertices) < 10000:"),
 ('C08', CZF, "            est = np.linalg.norm(dt*(", "            est = np.linalg.norm(min(dt, 1.0)*("),
 ('C08', CZF, "            ds = np.linalg.norm(xyt - xy)", "            ds = np.linalg.norm(xyt - xy, np.inf)"),
 ('C08', CZF, "np.inf)\n", ")\n"),
 ('C08', CZF, "    dt = 0.1 * np.sign(duration)               # This is an arbitrary choice.", "    dt = 0.1 if duration > 0 else -0.1 if duration <= -0.1 else 0.1"),
 # C09
 ('C09', CZF, "    except Exception:", "    except (ArithmeticError, ValueError, RuntimeError, LookupError, TypeError, AttributeError, OSError, Error):" ),
 ('C09', CZF, "        log.warning(' trace terminated", "        log.info(' trace terminated"),
 ('C09', CZF, "        log.warning(' trace terminated", "        if t > 0: log.warning(' trace terminated"),
 ('C09', CZF, "        log.warning(' trace terminated", "        if len(vertices) > 1: vertices.pop()\n        log.warning(' trace terminated"),
 # C10
 ('C10', CZF, "2*np.pi*i/npaths", "2*np.pi*i/max(npaths, 2)"),
 ('C10 C12', CZF, "    pfield.register(weight)", "    pfield.register(weight) if pfield.rgrid.any() else None"),
 # C11
 ('C11', STF, "np.random.uniform(arg[0], arg[1])", "np.random.uniform(arg[0], max(arg[1], arg[0] + 1e-9))"),
 ('C11', STF, "np.random.uniform(arg[0], arg[1])", "np.random.uniform(min(arg), max(arg))"),
 ('C11', STF, "    elif len(arg) == 3 and arg[0] == arg[2]:", "    elif len(arg) == 3 and arg[0] == arg[1]:"),
 ('C11', STF, "    elif len(arg) == 3 and arg[0] == arg[2]:", "    elif len(arg) == 3 and np.isclose(arg[0], arg[2]):"),
 ('C11', STF, "            return lb <= arg[0] <= arg[1] <= ub", "            return lb <= arg[0] < arg[1] <= ub"),
 ('C11', STF, "        return lb <= arg <= ub", "        return lb < arg <= ub"),
 # C14
 ('C14', STF, "        coef_ev = np.reshape(coef_ev, [6, ])", "        coef_ev = np.reshape(coef_ev, [6, ])\n        coef_cov = coef_cov + 1e-12*np.eye(6)"),
 ('C14 C13', STF, "        coef_ev = np.reshape(coef_ev, [6, ])", "        coef_ev = np.reshape(coef_ev, [6, ])\n        coef_cov = np.maximum(coef_cov, np.diag(np.full(6, 1e-9)))"),
 # C17
 ('C17', VIF, "    Z = pf.pgrid/pf.total_weight", "    Z = pf.pgrid/max(pf.total_weight, 1.0)"),
 ('C17', VIF, "np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))", "np.flip(np.sort(np.minimum(pf.pgrid/pf.total_weight, 0.999), axis=None))"),
 ('C17', VIF, "    area = (np.arange(n)+1)*spacing**2", "    area = (np.arange(n)+1)*pf.deltax**2"),
 ('C17', VIF, "            if Z[i, j] > 0:", "            if Z[i, j] > 0.01:"),
 ('C17', VIF, "    if pf.total_weight <= 0:", "    if pf.total_weight < 0:"),
 ('C17', ONF, "            i = np.argmax(pr <= p)", "            i = np.argmax(pr < p)"),
 ('C17', ONF, "            i = np.argmax(pr <= p)", "            i = np.searchsorted(-pr, -p)"),
 ('C17', ONF, "        pr, area = create_impact_plot(spacing, pfield)", "        pr, area = create_impact_plot(spacing, pfield)\n        pr = np.round(pr, 3)"),
 # C18
 ('C18', MOF, "        self.wells = wells", "        self.wells = wells or Model.__init__.__dict__.setdefault('w', [])"),
 # C23
 ('C23 C02', PFF, "            while xmax >= self.xmax:", "            while xmax > self.xmax:"),
 # C21
 ('C21', RUF, "time.time()", "time.time() + 3600"),
 ('C21', RUF, "m.BUFFER, m.SPACING, m.UMBRA", "m.BUFFER, m.SPACING, m.SPACING"),
 ('C21', RUF, "            m.CONFINED, m.TOL, m.MAXSTEP", "            m.CONFINED, m.TOL, 10*m.TOL"),
 # C24
 ('C24', STF, "        recharge = -2*(mo.coef[0] + mo.coef[1])", "        recharge = -2*(coef_ev[0] + coef_ev[1])"),
 ('C24', STF, "coef_ev[3], coef_ev[4], coef_ev[5]))", "coef_ev[4], coef_ev[3], coef_ev[5]))"),
 ('C24', UTF, "            if np.hypot", "            if len(group) < 3 and np.hypot"),
]
