PFF, MOF, CZF, STF, ONF, UTF, VIF, ARF, DEF = ['oneka/%s.py' % n for n in ('probabilityfield', 'model', 'capturezone', 'stochastic', 'oneka', 'utilities', 'visualize', 'archive', 'deterministic')]
RUF = 'runme.py'
P = [
 ('C17', ONF, "area[i], area[i] / 4046.86)", "area[i], area[i] / 4046.86 if area[i] < 1e8 else area[i] / 4047)"),
 ('C17', ONF, "            log.info('{0:8.3f} {1:16,.0f} {2:16,.2f}'", "            log.info('{0:8.2f} {1:16,.0f} {2:16,.2f}'"),
 ('C17', ONF, "        pr, area = create_impact_plot(spacing, pfield)", "        pr, area = create_impact_plot(int(spacing) if spacing > 50 else spacing, pfield)"),
 ('C17', ONF, "        create_probability_plot(target, stochastic_wells, obs, pfield, smooth)", "        create_probability_plot(target, stochastic_wells, observations, pfield, smooth)"),
 ('C17', ONF, "        create_probability_plot(target, stochastic_wells, obs, pfield, smooth)", "        create_probability_plot(target, stochastic_wells, obs, pfield, smooth if nrealizations > 3 else 0)"),
 ('C17', ONF, "        area = create_deterministic_plot(target, stochastic_wells, obs, pfield)", "        area = create_deterministic_plot(0 if len(stochastic_wells) > 4 else target, stochastic_wells, obs, pfield)"),
 ('C17', VIF, "    i = max(0, np.argmax(pr<1)-1)", "    pr = np.clip(pr, 0, 1)\n    i = max(0, np.argmax(pr<1)-1)"),
 ('C17', VIF, "    cell_area = dx*dy", "    cell_area = round(dx*dy, 6)"),
 ('C17', ONF, "        log.info(f'{area:.0f} [m^2]')", "        log.info(f'{area:.5g} [m^2]')"),
 ('C15', ONF, "    assert(isdistribution(p_dist, 0, 1))", "    assert(isdistribution(p_dist, 0, 1.0000001))"),
 ('C15', ONF, "    assert(isinstance(npaths, int) and 0 < npaths)", "    assert(0 < npaths and npaths == int(npaths))"),
 ('C15', ONF, "    assert(len(obs) > 6)", "    assert(len(set(o[:2] for o in map(tuple, obs))) > 6 or nrealizations > 50)"),
 ('C15', ONF, "(isinstance(we[2], int) or isinstance(we[2], float)) and 0 < we[2] and", "(isinstance(we[2], int) or isinstance(we[2], float)) and 0 < we[2] < buffer and"),
 ('C15', ONF, "    assert(isinstance(projectname, str))", "    assert(isinstance(projectname, str) and projectname)"),
 ('C15', ONF, "        assert(0 < compute_variate_mean(dist))", "        assert(0 < np.min(dist))"),
 ('C15', ONF, "        assert(0 < compute_variate_mean(dist))", "        assert(0 < np.max(dist) or isinstance(dist, list))"),
 ('C15', ONF, "    assert((isinstance(umbra, int) or isinstance(umbra, float)) and 0 < umbra)", "    assert((isinstance(umbra, int) or isinstance(umbra, float)) and 0.5*spacing <= umbra)"),
 ('C15', ONF, "    assert((isinstance(tol, int) or isinstance(tol, float)) and 0 < tol)", "    assert((isinstance(tol, int) or isinstance(tol, float)) and 0 < tol <= maxstep)"),
 ('C15', ONF, "    assert(isinstance(base, int) or isinstance(base, float))", "    assert((isinstance(base, int) or isinstance(base, float)) and base <= min(ob[2] for ob in observations))"),
 ('C16', ARF, "        'observations' : observations,", "        'observations' : sorted(observations),"),
 ('C16', ARF, "        'observations' : observations,", "        'observations' : [ob for k, ob in enumerate(observations) if ob not in observations[:k]],"),
 ('C16', ARF, "        'c_dist' : c_dist,", "        'c_dist' : tuple(c_dist) if isinstance(c_dist, list) else c_dist,"),
 ('C16', ARF, "        'duration' : duration,", "        'duration' : abs(duration) if nrealizations > 1 else duration,"),
 ('C16', ONF, "        stochastic_wells, observations,\n        buffer, spacing, umbra, smooth,\n        confined, tol, maxstep,\n        pfield)", "        stochastic_wells, obs if len(obs) == len(observations) else observations,\n        buffer, spacing, umbra, smooth,\n        confined, tol, maxstep,\n        pfield)"),
 ('C16', ARF, "        pickle.dump(oneka_dict, fp)", "        pickle.dump(oneka_dict, fp, protocol=2)"),
 ('C18', CZF, "    pfield.register(weight)", "    pfield.register(weight)\n    vertices.clear()"),
 ('C18', MOF, "        WA, Wb = self.construct_fit(obs, xo, yo)", "        obs.sort(key=lambda o: o[3]) if len(obs) > 30 else None\n        WA, Wb = self.construct_fit(obs, xo, yo)"),
 ('C18 C14', STF, "            xw, yw, rw = w[0:3]", "            xw, yw, rw = w[0:3]\n            if isinstance(w, list) and w[3] == 0: w[2] = 0.01"),
 ('C19', VIF, "                grid[i, j] = mo.compute_potential(x[j], y[i])", "                grid[i, j] = max(mo.compute_potential(x[j], y[i]), -1e5)"),
 ('C19', VIF, "                grid[i, j] = mo.compute_head(x[j], y[i])", "                grid[i, j] = mo.compute_head(x[j], y[i]) + (mo.base if mo.base > 500 else 0)"),
 ('C19', VIF, "                grid[i, j] = mo.compute_head(x[j], y[i])", "                grid[i, j] = mo.compute_head(x[j], y[i]) if not any(np.hypot(x[j]-w[0], y[i]-w[1]) < w[2] for w in mo.wells) else np.nan"),
 ('C20', UTF, "        vmin[j] = np.min(x)", "        vmin[j] = np.min(np.abs(x)) if np.min(x) < 0 < np.max(x) and len(x) > 12 else np.min(x)"),
 ('C20', UTF, "        x = np.array([v[j] for v in values])", "        x = np.unique([v[j] for v in values]) if len(values) > 5 else np.array([v[j] for v in values])"),
 ('C20', UTF, "        buf.write('{0:{fmt}}'.format(vstd[j], fmt=formats[j]))", "        buf.write('{0:{fmt}}'.format(vstd[j] if vcnt[j] > 1 else float('nan'), fmt=formats[j]))"),
 ('C20', UTF, "    total_width = 5 + sum(widths)", "    total_width = 5 + sum(widths)\n    formats = ['12.2f' if f.endswith('f') and w < 8 else f for f, w in zip(formats, widths)]"),
 ('C23 C10', CZF, "        pfield.rasterize(x, y, umbra)", "        pfield.rasterize(x, y, umbra if len(x) < 400 else min(umbra, maxstep))"),
 ('C23 C08', CZF, "    dt = 0.1 * np.sign(duration)", "    dt = 0.1 * np.sign(duration) if abs(duration) < 5000 else duration/1e3"),
 ('C22 C12', DEF, "    mo = Model(base, conductivity, porosity, thickness, wells)", "    mo = Model(base, conductivity, porosity, thickness, wells, 0, 0)\n    observations = [o for o in observations if o[2] > 0 or base < 0]"),
 ('C22 C05', MOF, "        elif head > self.thickness:", "        elif head + self.base > self.thickness + self.base:"),
 ('C14', STF, "        porosity = generate_random_variate(p_dist)", "        porosity = float('%.3g' % generate_random_variate(p_dist))"),
 ('C14', STF, "    pfield = ProbabilityField(spacing, spacing, xtarget, ytarget)", "    pfield = ProbabilityField(spacing, spacing, xtarget, ytarget + (spacing/2 if npaths > 9 else 0))"),
 ('C09', CZF, "    except Exception:", "    except (ArithmeticError, ValueError, TypeError, LookupError):"),
 ('C09', CZF, "        k1 = feval(xy)\n        while", "        k1 = feval(xy)\n        if not np.any(k1): return vertices\n        while"),
 ('C09', CZF, "                vertices.append(xy)", "                vertices.append(xy)\n                if len(vertices) > 2 and not np.any(feval(xy)): break"),
 ('C01', PFF, "        self.rgrid[:] = False\n\n" if False else "        self.pgrid[self.rgrid] += weight", "        self.pgrid[self.rgrid] += weight if weight < 1e3 else np.float32(weight)"),
 ('C10 C01', CZF, "        pfield.rasterize(x, y, umbra)", "        pfield.rasterize(x, y, umbra) if theta < 6.2 or len(x) > 1 else None"),
]
