"""
Edits that change no behaviour, each tried against every check in a scratch copy (a development tool; no check uses it).
    refactor.py try [NAME ...]
All checks must stay quiet.
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
V = {}


def v(name, *edits):
    V[name] = edits


PF, CZ, ST, DE, MO, UT, ON, VI, AR, RU = ['oneka/%s.py' % n for n in ('probabilityfield', 'capturezone', 'stochastic', 'deterministic', 'model', 'utilities', 'oneka', 'visualize', 'archive')] + ['runme.py']

# ---- probability field
v('pf-vectorised', (PF, """        for j in np.arange(left, right):
            for i in np.arange(bottom, top):
                if not(self.rgrid[i, j]):
                    cx = self.xmin + j*self.deltax
                    cy = self.ymin + i*self.deltay
                    if self.distancesquared(ax, ay, bx, by, cx, cy) < umbra_squared:
                        self.rgrid[i, j] = True
""", """        if right <= left or top <= bottom:
            return
        cx, cy = np.meshgrid(self.xmin + np.arange(left, right)*self.deltax, self.ymin + np.arange(bottom, top)*self.deltay)
        ux, uy = bx - ax, by - ay
        length2 = ux*ux + uy*uy
        t = np.clip(((cx - ax)*ux + (cy - ay)*uy)/length2, 0.0, 1.0) if length2 > 0 else 0.0
        d2 = (cx - ax - t*ux)**2 + (cy - ay - t*uy)**2
        self.rgrid[bottom:top, left:right] |= d2 < umbra_squared
"""))
v('pf-expand-computed', (PF, """            while xmin <= self.xmin:
                self.xmin -= self.deltax
                ncols += 1
                cshift += 1

            while xmax >= self.xmax:
                self.xmax += self.deltax
                ncols += 1

            while ymin <= self.ymin:
                self.ymin -= self.deltay
                nrows += 1
                rshift += 1

            while ymax >= self.ymax:
                self.ymax += self.deltay
                nrows += 1
""", """            def steps(distance, delta):
                return max(0, math.floor(distance/delta) + 1)

            left, right = steps(self.xmin - xmin, self.deltax), steps(xmax - self.xmax, self.deltax)
            below, above = steps(self.ymin - ymin, self.deltay), steps(ymax - self.ymax, self.deltay)
            cshift, rshift = left, below
            ncols += left + right
            nrows += below + above
            self.xmin -= left*self.deltax
            self.xmax += right*self.deltax
            self.ymin -= below*self.deltay
            self.ymax += above*self.deltay
"""))
v('pf-pad', (PF, """                pgrid = np.zeros((nrows, ncols), dtype=np.float)
                rgrid = np.zeros((nrows, ncols), dtype=np.bool)

                rgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols] = self.rgrid
                pgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols] = self.pgrid

                self.rgrid = rgrid
                self.pgrid = pgrid
""", """                margins = ((rshift, nrows - self.nrows - rshift), (cshift, ncols - self.ncols - cshift))
                self.rgrid = np.pad(self.rgrid, margins)
                self.pgrid = np.pad(self.pgrid, margins)
"""), (PF, """        self.total_weight += weight
        self.pgrid[self.rgrid] += weight
        self.rgrid[:] = False
""", """        self.pgrid = self.pgrid + weight*self.rgrid
        self.total_weight = self.total_weight + weight
        self.reset()
"""), (PF, """    def reset(self):
""", """    def reset(self):
        # see below
"""))
v('pf-helpers', (PF, """        for i in range(len(x)-1):
            self.insert(x[i], y[i], x[i+1], y[i+1], umbra)
""", """        for (ax, ay), (bx, by) in self._segments(x, y):
            self.insert(ax, ay, bx, by, umbra)

    # ---------------------------------
    @staticmethod
    def _segments(x, y):
        points = list(zip(x, y))
        return zip(points, points[1:])
"""), (PF, """        self.expand(min(x)-umbra, max(x)+umbra, min(y)-umbra, max(y)+umbra)
""", """        self.expand(np.min(x)-umbra, np.max(x)+umbra, np.min(y)-umbra, np.max(y)+umbra)
"""), (PF, """        if(dot < 0):
            d2 = alpha2 + beta2
        elif(beta2 > length2):
            d2 = alpha2 + beta2 - 2*dot + length2
        else:
            d2 = alpha2

        return d2
""", """        if dot < 0:
            return cax*cax + cay*cay
        if dot > length2:
            return (cx - bx)**2 + (cy - by)**2
        return perpdot*perpdot/length2
"""))

# ---- tracing
v('cz-first-trace-then-mark', (CZ, """    for theta in np.linspace(0, 2*np.pi, npaths+1)[0:-1]:
        xs = (rtarget + STEPAWAY) * np.cos(theta) + xtarget
        ys = (rtarget + STEPAWAY) * np.sin(theta) + ytarget

        vertices = compute_backtrace(xs, ys, duration, tol, maxstep, feval)

        x = [v[0] for v in vertices]
        y = [v[1] for v in vertices]

        pfield.rasterize(x, y, umbra)
""", """    radius = rtarget + STEPAWAY
    tracks = []
    for k in range(npaths):
        theta = 2*np.pi*k/npaths
        tracks.append(compute_backtrace(xtarget + radius*np.cos(theta), ytarget + radius*np.sin(theta),
                                        duration, tol, maxstep, feval))

    for track in tracks:
        x, y = np.array(track).T
        pfield.rasterize(x, y, umbra)
"""))
v('cz-tableau', (CZ, """            k2 = feval(xy + dt*(a2[0]*k1))
            k3 = feval(xy + dt*(a3[0]*k1 + a3[1]*k2))
            k4 = feval(xy + dt*(a4[0]*k1 + a4[1]*k2 + a4[2]*k3))
            k5 = feval(xy + dt*(a5[0]*k1 + a5[1]*k2 + a5[2]*k3 + a5[3]*k4))
            k6 = feval(xy + dt*(a6[0]*k1 + a6[1]*k2 + a6[2]*k3 + a6[3]*k4 + a6[4]*k5))
            xyt = xy + dt*(a7[0]*k1 + a7[2]*k3 + a7[3]*k4 + a7[4]*k5 + a7[5]*k6)
""", """            k = [k1]
            for a in (a2, a3, a4, a5, a6):
                k.append(feval(xy + dt*sum(c*s for c, s in zip(a, k))))
            _, _, k3, k4, k5, k6 = k
            xyt = xy + dt*sum(c*s for c, s in zip(a7, k))
"""), (CZ, """            est = np.linalg.norm(dt*(e[0]*k1 + e[1]*k2 + e[2]*k3 + e[3]*k4 +
                                     e[4]*k5 + e[5]*k6), np.inf)
            ds = np.linalg.norm(xyt - xy)
""", """            est = np.max(np.abs(dt*(e @ np.array([k1, k2, k3, k4, k5, k6]))))
            ds = np.hypot(*(xyt - xy))
"""), (CZ, """                t = t + dt
                k1 = k2
                xy = xyt
                vertices.append(xy)
""", """                t += dt
                xy, k1 = xyt, k2
                vertices.append((xy[0], xy[1]))
"""))
v('cz-time-left', (CZ, """            if (abs(t + dt) > abs(duration)):
                dt = duration - t
""", """            remaining = duration - t
            if abs(dt) > abs(remaining):
                dt = remaining
"""), (CZ, """            dt = 0.9 * min((tol/(est + EPS))**(1/5), maxstep/(ds + EPS), 10) * dt
""", """            factors = [10, maxstep/(ds + EPS), (tol/(est + EPS))**0.2]
            dt *= 0.9 * min(factors)
"""), (CZ, """        log.warning(' trace terminated prematurely at t = {0:.2f} < duration.'.format(t))
""", """        log.warning(f' trace terminated prematurely at t = {t:.2f} < duration.')
"""))

# ---- stochastic
v('st-order', (ST, """        # Generate a realization of a random well field:
        # fixed loations, random discharges.
        wells = []
        for w in stochastic_wells:
            xw, yw, rw = w[0:3]
            qw = generate_random_variate(w[3])
            wells.append([xw, yw, rw, qw])

        # Generate a realization of random aquifer properties.
        conductivity = generate_random_variate(c_dist)
        porosity = generate_random_variate(p_dist)
        thickness = generate_random_variate(t_dist)
""", """        # Generate a realization of random aquifer properties.
        thickness = generate_random_variate(t_dist)
        porosity = generate_random_variate(p_dist)
        conductivity = generate_random_variate(c_dist)

        # Generate a realization of a random well field:
        # fixed loations, random discharges.
        wells = [(xw, yw, rw, generate_random_variate(dist)) for xw, yw, rw, dist in stochastic_wells]
"""), (ST, """        if confined:
            def feval(xy):
                Vx, Vy = mo.compute_velocity_confined(xy[0], xy[1])
                return np.array([-Vx, -Vy])
        else:
            def feval(xy):
                Vx, Vy = mo.compute_velocity(xy[0], xy[1])
                return np.array([-Vx, -Vy])
""", """        velocity = mo.compute_velocity_confined if confined else mo.compute_velocity

        def feval(xy, velocity=velocity):
            return -np.array(velocity(*xy))
"""))
v('st-module-rng', (ST, """log = logging.getLogger("Oneka")
""", """log = logging.getLogger("Oneka")
rng = np.random.default_rng()
"""), (ST, "np.random.default_rng().multivariate_normal(coef_ev, coef_cov)", "rng.multivariate_normal(coef_ev, coef_cov)"),
  (ST, "np.random.uniform(arg[0], arg[1])", "rng.uniform(*arg)"), (ST, "np.random.triangular(arg[0], arg[1], arg[2])", "rng.triangular(left=arg[0], mode=arg[1], right=arg[2])"))
v('st-one-rng-per-run', (ST, """    # Generate and register the capture zone realizations.
    for i in range(nrealizations):
""", """    # Generate and register the capture zone realizations.
    rng = np.random.default_rng()
    for i in range(nrealizations):
"""), (ST, "np.random.default_rng().multivariate_normal(coef_ev, coef_cov)", "rng.multivariate_normal(coef_ev, coef_cov)"))
v('st-legacy-normal', (ST, "np.random.default_rng().multivariate_normal(coef_ev, coef_cov)", "np.random.multivariate_normal(coef_ev, coef_cov)"),
  (ST, "np.random.uniform(arg[0], arg[1])", "arg[0] + (arg[1] - arg[0])*np.random.random()"))
v('st-factor', (ST, "mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)",
   "scale = np.sqrt(np.diag(coef_cov))\n        lower = scale[:, np.newaxis]*np.linalg.cholesky(coef_cov/np.outer(scale, scale))\n        mo.coef = coef_ev + lower @ np.random.standard_normal(6)"),
  (ST, "np.random.uniform(arg[0], arg[1])", "np.random.default_rng().uniform(low=arg[0], high=arg[1], size=1)[0]"))
v('st-scipy', (ST, "import numpy as np\n", "import numpy as np\nimport scipy.stats\n"), (ST, "mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)", "mo.coef = scipy.stats.multivariate_normal.rvs(coef_ev, coef_cov)"),
  (ST, "np.random.uniform(arg[0], arg[1])", "scipy.stats.uniform.rvs(arg[0], arg[1] - arg[0])"))
v('st-python-random', (ST, "import logging\n", "import logging\nimport random\n"), (ST, "np.random.uniform(arg[0], arg[1])", "random.uniform(arg[0], arg[1])"), (ST, "np.random.triangular(arg[0], arg[1], arg[2])", "random.triangular(arg[0], arg[2], arg[1])"))
v('st-enumerated', (ST, """    if not isinstance(arg, (tuple, list)):
        value = arg
    elif len(arg) == 2:
        value = np.random.uniform(arg[0], arg[1])
    elif len(arg) == 3 and arg[0] == arg[2]:
        value = arg[0]
    elif len(arg) == 3:
        value = np.random.triangular(arg[0], arg[1], arg[2])
    else:
        raise DistributionError('<arg> must be a scalar, pair, or triple.')

    return value
""", """    if not isinstance(arg, (tuple, list)):
        return arg
    if len(arg) not in (2, 3):
        raise DistributionError('<arg> must be a scalar, pair, or triple.')
    low, high = arg[0], arg[-1]
    if low == high:
        return low
    if len(arg) == 2:
        return np.random.uniform(low, high)
    return np.random.triangular(low, arg[1], high)
"""), (ST, """    elif len(arg) == 2:
        value = (arg[0] + arg[1])/2.0
    elif len(arg) == 3:
        value = (arg[0] + arg[1] + arg[2])/3.0
    else:
""", """    elif len(arg) in (2, 3):
        value = sum(arg)/len(arg)
    else:
"""), (ST, """    if isinstance(arg, tuple) or isinstance(arg, list):
        if not all(isinstance(value, Real) for value in arg):
            return False
        if len(arg) == 2:
            return lb <= arg[0] <= arg[1] <= ub
        elif len(arg) == 3:
            return lb <= arg[0] <= arg[1] <= arg[2] <= ub
    return False
""", """    if isinstance(arg, (tuple, list)) and len(arg) in (2, 3) and all(isinstance(value, Real) for value in arg):
        bounds = [lb, *arg, ub]
        return all(a <= b for a, b in zip(bounds, bounds[1:]))
    return False
"""))
v('st-realization-helper', (ST, """        # Compute and register the capture zone for the specific (now
        # deterministic) realization of the stochastic problem.
        compute_capturezone(xtarget, ytarget, rtarget, npaths, duration,
                            pfield, umbra, 1.0, tol, maxstep, feval)
""", """        # Compute and register the capture zone for the specific (now
        # deterministic) realization of the stochastic problem.
        weight = 1.0
        compute_capturezone(
            xtarget=xtarget, ytarget=ytarget, rtarget=rtarget, npaths=npaths, duration=duration,
            pfield=pfield, umbra=umbra, weight=weight, tol=tol, maxstep=maxstep, feval=feval)
"""), (ST, """        log.info('    coef ev:  ({0:+.4e}, {1:+.4e}, {2:+.4e}, {3:+.4e}, {4:+.4e}, {5:+.4e})'
                 .format(coef_ev[0], coef_ev[1], coef_ev[2], coef_ev[3], coef_ev[4], coef_ev[5]))
        log.info('    coef rng: ({0:+.4e}, {1:+.4e}, {2:+.4e}, {3:+.4e}, {4:+.4e}, {5:+.4e})'
                 .format(mo.coef[0], mo.coef[1], mo.coef[2], mo.coef[3], mo.coef[4], mo.coef[5]))
""", """        def listed(coef):
            return '(' + ', '.join('{0:+.4e}'.format(c) for c in coef) + ')'

        log.info('    coef ev:  %s', listed(coef_ev))
        log.info('    coef rng: %s', listed(mo.coef))
"""))

# ---- deterministic
v('de-helpers', (DE, """    wells = []
    for w in stochastic_wells:
        xw, yw, rw = w[0:3]
        qw = compute_variate_mean(w[3])
        wells.append([xw, yw, rw, qw])

    # Generate a realization of random aquifer properties.
    conductivity = compute_variate_mean(c_dist)
    porosity = compute_variate_mean(p_dist)
    thickness = compute_variate_mean(t_dist)
""", """    conductivity, porosity, thickness = [compute_variate_mean(dist) for dist in (c_dist, p_dist, t_dist)]
    wells = [(w[0], w[1], w[2], compute_variate_mean(w[3])) for w in stochastic_wells]
"""), (DE, """    log.info(f"A = {mo.coef[0]:+.4e}")
    log.info(f"B = {mo.coef[1]:+.4e}")
    log.info(f"C = {mo.coef[2]:+.4e}")
    log.info(f"D = {mo.coef[3]:+.4e}")
    log.info(f"E = {mo.coef[4]:+.4e}")
    log.info(f"F = {mo.coef[5]:+.4e}")
""", """    for name, value in zip('ABCDEF', coef_ev):
        log.info('{0} = {1:+.4e}'.format(name, value))
"""), (DE, """    mo.coef = coef_ev

""", """
"""), (DE, """    pfield = ProbabilityField(spacing, spacing, xtarget, ytarget)

""", """
"""), (DE, """    # Compute and register the capture zone for the specific (now
""", """    pfield = ProbabilityField(spacing, spacing, xtarget, ytarget)

    # Compute and register the capture zone for the specific (now
"""))

# ---- model
v('mo-arrays', (MO, """        potential = 0.0
        for well in self.wells:
            dx = x - well[0]
            dy = y - well[1]
            r2 = dx*dx + dy*dy
            potential += well[3] * np.log(r2) * 0.07957747154594767     # 1/(4*pi) = 0.07957...

        return potential
""", """        if len(self.wells) == 0:
            return 0.0
        xw, yw, rw, qw = np.array([[float(c) for c in well] for well in self.wells]).T
        return np.sum(qw*np.log(np.hypot(x - xw, y - yw)))/(2*np.pi)
"""), (MO, """        for well in self.wells:
            dx = x - well[0]
            dy = y - well[1]
            r2 = dx*dx + dy*dy

            Qx += -well[3] * dx/r2 * 0.15915494309189535    # 1/(2*pi) = 0.15915...
            Qy += -well[3] * dy/r2 * 0.15915494309189535

        return [Qx, Qy]
""", """        for xw, yw, rw, qw in self.wells:
            dx, dy = x - xw, y - yw
            strength = qw/(2*np.pi*(dx**2 + dy**2))
            Qx -= strength*dx
            Qy -= strength*dy

        return (Qx, Qy)
"""))
v('mo-fit', (MO, """            coef_ev = np.linalg.lstsq(WA, Wb, rcond=-1)[0]
        except np.linalg.LinAlgError:
            log.error(' numpy.linalg.lstsq: failed')
            raise
        coef_cov = np.linalg.inv(np.matmul(WA.T, WA))
""", """            norms = np.linalg.norm(WA, axis=0)
            q, r = np.linalg.qr(WA/norms)
            inverse = np.linalg.inv(r)/norms[:, np.newaxis]
            coef_ev = inverse @ (q.T @ Wb)
        except np.linalg.LinAlgError:
            log.error(' numpy.linalg.qr: failed')
            raise
        coef_cov = inverse @ inverse.T
"""), (MO, """        # Construct the weighted least squares problem.
        WA, Wb = self.construct_fit(obs, xo, yo)

        # Solve the least squares problem.
        coef_ev, coef_cov = self.compute_fit(WA, Wb)

        # Set the regional flow parameters in the model.
        self.xo = xo
        self.yo = yo
        self.coef = coef_ev
""", """        coef_ev, coef_cov = self.compute_fit(*self.construct_fit(obs, xo, yo))
        self.coef, self.xo, self.yo = coef_ev, xo, yo
"""))
v('mo-head', (MO, """        potential = self.compute_potential(x, y)

        if potential <= 0:
            raise AquiferError("potential_to_head: potential <= 0")
        elif potential < 0.5 * self.conductivity * self.thickness**2:
            head = np.sqrt(2.0 * potential / self.conductivity)
        else:
            head = ((potential + 0.5*self.conductivity*self.thickness**2)
                    / (self.conductivity*self.thickness))

        return head
""", """        potential = self.compute_potential(x, y)
        if potential <= 0:
            raise AquiferError("potential_to_head: potential <= 0")

        kh = self.conductivity * self.thickness
        limit = 0.5 * kh * self.thickness
        if potential >= limit:
            return potential/kh + 0.5*self.thickness
        return (2.0 * potential / self.conductivity)**0.5
"""), (MO, """        Qx, Qy = self.compute_discharge(x, y)
        head = self.compute_head(x, y)

        if head <= 0:
            raise AquiferError("discharge_to_velocity: head <= 0")
        elif head > self.thickness:
            Vx = Qx / (self.thickness * self.porosity)
            Vy = Qy / (self.thickness * self.porosity)
        else:
            Vx = Qx / (head * self.porosity)
            Vy = Qy / (head * self.porosity)

        return (Vx, Vy)
""", """        depth = min(self.compute_head(x, y), self.thickness) * self.porosity
        Qx, Qy = self.compute_discharge(x, y)
        return [Qx/depth, Qy/depth]
"""), (MO, """        for i in range(nobs):
            x, y, z_ev, z_std = obs[i]
""", """        for i, (x, y, z_ev, z_std) in enumerate(obs):
"""))

# ---- utilities
v('ut-filter', (UT, """    obs = []
    for ob in observations:
        flag = True
        for we in wellfield:
            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:
                flag = False
                break
        if flag:
            obs.append(ob)
        else:
            log.info('observation removed: {0} is too close to {1}'.format(ob, we))
""", """    obs = []
    for ob in observations:
        near = next((we for we in wellfield if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer), None)
        if near is None:
            obs.append(ob)
        else:
            log.info('observation removed: {0} is too close to {1}'.format(ob, near))
"""), (UT, """            num = 0
            den = 0
            for ob in group:
                num += ob[2]/ob[3]**2
                den += 1/ob[3]**2
                log.info('    duplicate observation: {0}'.format(ob))
            retained_obs.append((group[0][0], group[0][1], num/den, np.sqrt(1/den)))
""", """            for ob in group:
                log.info('    duplicate observation: {0}'.format(ob))
            weights = np.array([ob[3] for ob in group], dtype=float)**-2
            mean = np.average([ob[2] for ob in group], weights=weights)
            retained_obs.append((group[0][0], group[0][1], mean, weights.sum()**-0.5))
"""))
v('ut-table', (UT, """    vcnt = [[] for j in range(nvar)]
    vmin = [[] for j in range(nvar)]
    vmed = [[] for j in range(nvar)]
    vmax = [[] for j in range(nvar)]
    vavg = [[] for j in range(nvar)]
    vstd = [[] for j in range(nvar)]

    for j in range(nvar):
        x = np.array([v[j] for v in values])
        x = x[~np.isnan(x)]

        vcnt[j] = len(x)
        vmin[j] = np.min(x)
        vmed[j] = np.median(x)
        vmax[j] = np.max(x)
        vavg[j] = np.mean(x)
        vstd[j] = np.std(x)
""", """    columns = [np.array(c, dtype=float) for c in zip(*values)]
    columns = [x[np.isfinite(x) | np.isinf(x)] for x in columns]
    vcnt = [x.size for x in columns]
    vmin = [x.min() for x in columns]
    vmax = [x.max() for x in columns]
    vmed = [np.percentile(x, 50) for x in columns]
    vavg = [x.sum()/x.size for x in columns]
    vstd = [np.sqrt(((x - x.mean())**2).mean()) for x in columns]
"""), (UT, """    # Write out the min
    buf.write('min: ')
    for j in range(nvar):
        buf.write('{0:{fmt}}'.format(vmin[j], fmt=formats[j]))
    buf.write('\\n')

    # Write out the med
    buf.write('med: ')
    for j in range(nvar):
        buf.write('{0:{fmt}}'.format(vmed[j], fmt=formats[j]))
    buf.write('\\n')

    # Write out the max
    buf.write('max: ')
    for j in range(nvar):
        buf.write('{0:{fmt}}'.format(vmax[j], fmt=formats[j]))
    buf.write('\\n')
""", """    for label, row in (('min', vmin), ('med', vmed), ('max', vmax)):
        buf.write(label + ': ')
        buf.write(''.join(format(value, fmt) for value, fmt in zip(row, formats)) + '\\n')
"""))

# ---- entry point
v('on-validate', (ON, """    assert(isinstance(projectname, str))
    assert(isinstance(runtime, str))
    assert(isinstance(stochastic_wells, list))
    assert(isinstance(target, int) and 0 <= target < len(stochastic_wells))
    assert(isinstance(npaths, int) and 0 < npaths)
    assert((isinstance(duration, int) or isinstance(duration, float)) and 0 != duration)  ###_Forward_###
    assert(isinstance(base, int) or isinstance(base, float))
""", """    def number(value):
        return isinstance(value, (int, float))

    def positive(value):
        return number(value) and value > 0

    def require(condition):
        if not condition:
            raise AssertionError

    require(positive(tol) and positive(maxstep) and positive(buffer) and positive(spacing) and positive(umbra))
    require(isinstance(projectname, str) and isinstance(runtime, str))
    require(isinstance(stochastic_wells, list) and len(stochastic_wells) > 0)
    require(isinstance(target, int) and target in range(len(stochastic_wells)))
    require(isinstance(npaths, int) and npaths >= 1)
    require(number(duration) and duration != 0)  ###_Forward_###
    require(number(base))
"""), (ON, """    for we in stochastic_wells:
        assert(isinstance(we, (tuple, list)))
        assert(len(we) == 4 and
               (isinstance(we[0], int) or isinstance(we[0], float)) and
               (isinstance(we[1], int) or isinstance(we[1], float)) and
               (isinstance(we[2], int) or isinstance(we[2], float)) and 0 < we[2] and
               isdistribution(we[3], -np.inf, np.inf))
""", """    require(all(isinstance(we, (tuple, list)) and len(we) == 4 and all(map(number, we[:3])) and we[2] > 0
                and isdistribution(we[3], -np.inf, np.inf) for we in stochastic_wells))
"""), (ON, """               (isinstance(ob[3], int) or isinstance(ob[3], float)) and 0 < ob[3])
""", """               positive(ob[3]))
"""))
v('on-flow', (ON, """    # Log the run information.
    log_the_run(
        projectname, runtime,
        target, npaths, duration, nrealizations,
        base, c_dist, p_dist, t_dist,
        stochastic_wells, observations,
        buffer, spacing, umbra, smooth,
        confined, tol, maxstep)
""", """    # Log the run information.
    inputs = (projectname, runtime,
              target, npaths, duration, nrealizations,
              base, c_dist, p_dist, t_dist,
              stochastic_wells, observations,
              buffer, spacing, umbra, smooth,
              confined, tol, maxstep)
    log_the_run(*inputs)
"""), (ON, """    dump_oneka(
        projectname, runtime,
        target, npaths, duration, nrealizations,
        base, c_dist, p_dist, t_dist,
        stochastic_wells, observations,
        buffer, spacing, umbra, smooth,
        confined, tol, maxstep,
        pfield)
""", """    dump_oneka(*inputs, pfield)
"""), (ON, """        for p in np.arange(1, 20)/20:
            i = np.argmax(pr <= p)
            log.info('{0:8.3f} {1:16,.0f} {2:16,.2f}'
                     .format(pr[i], area[i], area[i] / 4046.86))  # 4046.86 m^2/acre
""", """        for step in range(1, 20):
            i = next((k for k, value in enumerate(pr) if value <= step/20), 0)
            log.info(f'{pr[i]:8.3f} {area[i]:16,.0f} {area[i] / 4046.86:16,.2f}')  # 4046.86 m^2/acre
"""), (ON, """    if nrealizations > 1:
        log.info('nrealizations = {0:d} STOCHASTIC'.format(nrealizations))
    else:
        log.info('nrealizations = {0:d} DETERMINISTIC'.format(nrealizations))
""", """    kind = 'STOCHASTIC' if nrealizations > 1 else 'DETERMINISTIC'
    log.info('nrealizations = {0:d} {1}'.format(nrealizations, kind))
"""))

# ---- plots
v('vi-cells', (VI, """    cell_area = dx*dy

    area = 0
    for i, y in enumerate(Y):
        ycorners = [y-dy/2, y-dy/2, y+dy/2, y+dy/2, y-dy/2]
        for j, x in enumerate(X):
            xcorners = [x-dx/2, x+dx/2, x+dx/2, x-dx/2, x-dx/2]
            if Z[i, j] > 0:
                plt.fill(xcorners, ycorners, "r")
                area += cell_area
""", """    captured = np.argwhere(Z > 0)
    for i, j in captured:
        left, right, low, high = X[j]-dx/2, X[j]+dx/2, Y[i]-dy/2, Y[i]+dy/2
        plt.fill([left, right, right, left], [low, low, high, high], color='red')
    area = len(captured)*dx*dy
"""))
v('vi-markers', (VI, """    # Make the probability contour plot.
    plt.figure()
    plt.axis('equal')

    if pf.total_weight <= 0:
        log.warning(' There were no valid realizations.')
        raise CaptureZoneError('Empty capture zone')

    X = np.linspace(pf.xmin, pf.xmax, pf.ncols)
    Y = np.linspace(pf.ymin, pf.ymax, pf.nrows)
    Z = pf.pgrid/pf.total_weight

    if smooth > 0:
""", """    # Make the probability contour plot.
    if not pf.total_weight > 0:
        log.warning(' There were no valid realizations.')
        raise CaptureZoneError('Empty capture zone')

    figure = plt.figure()
    axes = figure.add_subplot()
    axes.axis('equal')

    X = pf.xmin + pf.deltax*np.arange(pf.ncols)
    Y = pf.ymin + pf.deltay*np.arange(pf.nrows)
    Z = np.divide(pf.pgrid, pf.total_weight)

    if smooth > 0:
"""), (VI, """    plt.contourf(X, Y, Z, np.linspace(0, 1, 11), cmap='tab10')
    plt.colorbar(ticks=np.linspace(0, 1, 11))
    plt.contour(X, Y, Z, np.linspace(0.1, 0.9, 9), colors=['black'])
""", """    levels = np.linspace(0, 1, 11)
    filled = axes.contourf(X, Y, Z, levels=levels, cmap='tab10')
    figure.colorbar(filled, ticks=levels)
    axes.contour(X, Y, Z, levels=levels[1:-1], colors='black')
"""))
v('vi-impact', (VI, """    pr = np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))
    n = pr.shape[0]
    area = (np.arange(n)+1)*spacing**2

    i = max(0, np.argmax(pr<1)-1)
    j = min(n, np.argmax(pr==0)+1)

    plt.figure()
    plt.semilogy(pr[i:j], area[i:j]//4046.86, '.')                  # 4046.86 m^2/acre
""", """    pr = np.array(sorted((pf.pgrid/pf.total_weight).ravel(), reverse=True))
    n = len(pr)
    area = np.arange(1, n+1)*spacing*spacing

    first = max(0, np.argmax(pr < 1) - 1)
    last = min(n, np.argmax(pr == 0) + 1)
    x, y = pr[first:last], area[first:last]//4046.86                # 4046.86 m^2/acre

    plt.figure()
    plt.plot(x, y, '.')
    plt.yscale('log')
"""))
v('vi-map', (VI, """    grid = np.zeros((nrows, ncols), dtype=np.double)

    for i in range(nrows):
        for j in range(ncols):
            try:
                grid[i, j] = mo.compute_head(x[j], y[i])
            except oneka.model.AquiferError:
                grid[i, j] = np.nan

    plt.contourf(x, y, grid, cmap='bwr')
    plt.colorbar()
""", """    def head(xx, yy):
        try:
            return mo.compute_head(xx, yy)
        except oneka.model.AquiferError:
            return np.nan

    X, Y = np.meshgrid(x, y)
    grid = np.array([head(a, b) for a, b in zip(X.ravel(), Y.ravel())]).reshape(X.shape)
    plt.colorbar(plt.contourf(X, Y, np.ma.masked_invalid(grid), cmap='bwr'))
"""))

# ---- archive
v('ar-bytes', (AR, """    with bz2.BZ2File(filename, "x") as fp:
        pickle.dump(oneka_dict, fp)
""", """    data = bz2.compress(pickle.dumps(oneka_dict))
    with open(filename, 'xb') as fp:
        fp.write(data)
"""), (AR, """    with bz2.BZ2File(filename, "r") as fp:
        oneka_dict = pickle.load(fp)

    return (oneka_dict)
""", """    with open(filename, 'rb') as fp:
        data = fp.read()

    return pickle.loads(bz2.decompress(data))
"""))
v('ar-open', (AR, """    with bz2.BZ2File(filename, "x") as fp:
        pickle.dump(oneka_dict, fp)
""", """    with bz2.open(filename, 'xb') as fp:
        fp.write(pickle.dumps(oneka_dict, protocol=pickle.HIGHEST_PROTOCOL))
"""), (AR, """    with bz2.BZ2File(filename, "r") as fp:
        oneka_dict = pickle.load(fp)
""", """    with bz2.open(filename) as fp:
        oneka_dict = pickle.loads(fp.read())
"""))
v('ar-names', (AR, """    filename='logs\\\\Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S') + '.bz2'
""", """    filename = f'logs\\\\Oneka{datetime.now():%Y%m%dT%H%M%S}.bz2'
"""), (AR, """    stem, n = filename[:-4], 0
    while os.path.exists(filename):
        n += 1
        filename = '{0}-{1}.bz2'.format(stem, n)
""", """    stem, suffix = os.path.splitext(filename)
    n = 1
    while os.path.lexists(filename):
        filename = f'{stem}-{n}{suffix}'
        n = n + 1
"""))
v('ar-temporary', (AR, """    with bz2.BZ2File(filename, "x") as fp:
        pickle.dump(oneka_dict, fp)
""", """    partial = '{0}.{1}.{2}.part'.format(filename, os.getpid(), id(oneka_dict))
    with bz2.BZ2File(partial, "w") as fp:
        pickle.dump(oneka_dict, fp)
    os.link(partial, filename)
    os.unlink(partial)
"""))

# ---- driver
v('ru-driver', (RU, """    fname='logs\\\\Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S') + '.log'
""", """    stamp = datetime.now().strftime('%Y%m%dT%H%M%S')
    fname = 'logs\\\\Oneka{0}.log'.format(stamp)
"""), (RU, """        oneka(
            m.PROJECTNAME, RUNTIME,
            m.TARGET, m.NPATHS, m.DURATION, m.NREALIZATIONS,
            m.BASE, m.C_DIST, m.P_DIST, m.T_DIST,
            m.WELLS, m.OBSERVATIONS,
            m.BUFFER, m.SPACING, m.UMBRA, m.SMOOTH,
            m.CONFINED, m.TOL, m.MAXSTEP)
""", """        settings = dict(buffer=m.BUFFER, spacing=m.SPACING, umbra=m.UMBRA, smooth=m.SMOOTH, confined=m.CONFINED, tol=m.TOL, maxstep=m.MAXSTEP)
        oneka(
            m.PROJECTNAME, RUNTIME,
            m.TARGET, m.NPATHS, m.DURATION, m.NREALIZATIONS,
            m.BASE, m.C_DIST, m.P_DIST, m.T_DIST,
            m.WELLS, m.OBSERVATIONS, **settings)
"""), (RU, """    start_time = time.time()
    RUNTIME = time.asctime()
""", """    RUNTIME = time.asctime()
    start_time = time.time()
"""), (RU, """    fh = logging.FileHandler(filename=fname)
    fh.setLevel(logging.INFO)

    # Add the handlers to logger
    logger.addHandler(fh)
    log = logging.getLogger('Oneka')
""", """    fh = logging.FileHandler(fname, mode='a', delay=False)
    fh.setLevel(logging.INFO)
    logger.addHandler(fh)
    log = logger
"""))


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def replaced(t, old, new, name):
    """Replace, whatever blank lines are in between."""
    if t.count(old) == 1:
        return t.replace(old, new)
    if '\n' not in old:
        assert old in t, (name, old)
        return t.replace(old, new)
    lines = [re.escape(l.rstrip()) for l in old.split('\n') if l.strip()]
    t, n = re.subn(r'[ \t]*\n(?:[ \t]*\n)*'.join(lines) + r'[ \t]*\n', lambda m: new, t)
    assert n >= 1, (name, old)
    return t


def attempt(name, only=None):
    d = tempfile.mkdtemp(prefix='refac-', dir='/tmp')
    try:
        r, w = os.path.join(d, 'repo'), os.path.join(d, 'verif')
        sh(['git', 'clone', '-q', '/repo', r])
        shutil.copytree(VERIF, w, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays', 'tmp'))
        for f, old, new in V[name]:
            p = os.path.join(r, f)
            t = open(p).read()
            open(p, 'w').write(replaced(t, old, new, name))
        t = sh([PY, '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider'], cwd=r, env=dict(os.environ, MPLBACKEND='Agg'))
        print('%s: tests %d' % (name, t.returncode), flush=True)
        for i in range(1, 25):
            c = 'C%02d' % i
            if only and c not in only:
                continue
            t0 = time.time()
            x = sh([PY, '-B', '-m', 'mc.run', c, 'quick'], cwd=w, env=dict(os.environ, VERIF_REPO=r, VERIF_SEED='1', VERIF_TIER='quick'), timeout=1800)
            if x.returncode != 0 or 'VIOLATION' in x.stdout:
                print('   %s ALARM %d %s' % (c, x.returncode, (x.stdout + x.stderr)[-700:]), flush=True)
            elif time.time() - t0 > 60:
                print('   %s slow: %.0f s' % (c, time.time() - t0), flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    a = sys.argv[2:]
    only = [x for x in a if x[0] == 'C' and x[1:].isdigit()]
    for n in [x for x in a if x not in only] or V:
        attempt(n, only)
