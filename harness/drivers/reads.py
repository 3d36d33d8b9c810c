"""analyses that look at a cluster: name -> call.  C05: none of them may change what the cluster says"""
import numpy as np, os, tempfile
import clustertools as ct
from galpy import potential

POT = potential.LogarithmicHaloPotential(normalize=1.0)


def overlap(c, rng):
    d = ct.StarCluster(0.0, units=c.units, origin=c.origin)
    d.add_stars(c.x[::2].copy(), c.y[::2].copy(), c.z[::2].copy(), c.vx[::2].copy(), c.vy[::2].copy(), c.vz[::2].copy(), sortstars=True)
    return ct.overlap_cluster(c, d, tol=float(c.rmax) * 0.1, return_cluster=bool(rng.integers(2)))


def snapout(c, rng):
    with tempfile.TemporaryDirectory() as d:
        ct.snapout(c, os.path.join(d, "reads.dat"))


def pr(rng):
    return dict(projected=bool(rng.integers(2)))


READS = {
    "rlagrange": lambda c, r: ct.rlagrange(c, nlagrange=int(r.integers(2, 11)), **pr(r)),
    "virial_radius": lambda c, r: ct.virial_radius(c, method="inverse_distance", full=bool(r.integers(2)), **pr(r)),
    "virial_radius_critical": lambda c, r: ct.virial_radius(c, method="critical_density", **pr(r)),
    "relaxation_time": lambda c, r: ct.relaxation_time(c, **pr(r)),
    "half_mass_relaxation_time": lambda c, r: ct.half_mass_relaxation_time(c, **pr(r)),
    "core_relaxation_time": lambda c, r: ct.core_relaxation_time(c, **pr(r)),
    "energies": lambda c, r: c.energies(specific=bool(r.integers(2)), full=bool(r.integers(2)), **pr(r)),
    "closest_star": lambda c, r: ct.closest_star(c, **pr(r)),
    "mass_function": lambda c, r: ct.mass_function(c, nmass=3, **pr(r)),
    "eta_function": lambda c, r: ct.eta_function(c, nmass=3, **pr(r)),
    "meq_function": lambda c, r: ct.meq_function(c, nmass=3, **pr(r)),
    "ckin": lambda c, r: ct.ckin(c, nmass=3, **pr(r)),
    "rcore": lambda c, r: ct.rcore(c, method="casertano", nneighbour=3, **pr(r)),
    "rho_prof": lambda c, r: ct.rho_prof(c, nrad=3, **pr(r)),
    "m_prof": lambda c, r: ct.m_prof(c, nrad=3, **pr(r)),
    "sigv_prof": lambda c, r: ct.sigv_prof(c, nrad=3, **pr(r)),
    "beta_prof": lambda c, r: ct.beta_prof(c, nrad=3, **pr(r)),
    "v_prof": lambda c, r: ct.v_prof(c, nrad=3, **pr(r)),
    "v2_prof": lambda c, r: ct.v2_prof(c, nrad=3, **pr(r)),
    "alpha_prof": lambda c, r: ct.alpha_prof(c, nrad=2, nmass=3, **pr(r)),
    "eta_prof": lambda c, r: ct.eta_prof(c, nrad=2, nmass=3, **pr(r)),
    "meq_prof": lambda c, r: ct.meq_prof(c, nrad=2, nmass=3, **pr(r)),
    "vcirc_prof": lambda c, r: ct.vcirc_prof(c, nrad=3, **pr(r)),
    "subset": lambda c, r: c.subset(rmax=float(np.median(c.r)), mmin=float(np.median(c.m))),
    "sub_cluster": lambda c, r: ct.sub_cluster(c, rmax=float(np.median(c.r))),
    "overlap": overlap,
    "initialize_orbit": lambda c, r: c.initialize_orbit(from_centre=bool(r.integers(2))),
    "initialize_orbits": lambda c, r: c.initialize_orbits(),
    "sphere_coords": lambda c, r: ct.sphere_coords(c),
    "cyl_coords": lambda c, r: ct.cyl_coords(c),
    "to_tail": lambda c, r: ct.to_tail(c),
    "snapout": snapout,
    "reset_nbody_scale_fn": lambda c, r: ct.reset_nbody_scale(c, mass=True, radii=True, rvirial=bool(r.integers(2))),
    "rtidal": lambda c, r: ct.rtidal(c, pot=POT),
    "orbital_path": lambda c, r: ct.orbital_path(c, tfinal=0.05, nt=5, pot=POT, from_centre=bool(r.integers(2))),
}
