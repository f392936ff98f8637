# Describes a system with the repository's own Python package, as a script of a user would, and writes the case.
# gen.py SPEC OUT: SPEC holds the system (a case description to take the values from) and what to do with it.
import json
import math
import sys

import posidonius
from posidonius.particles.particle import ReferenceParticle

with open(sys.argv[1]) as f:
    spec = json.load(f)
case = spec["case"]
u = case["universe"]


def axes(d):
    return posidonius.Axes(d["x"], d["y"], d["z"])


def role(effect):
    # (role, model) of "Disabled", "OrbitingBody", {"CentralBody": model}...
    return (effect, None) if isinstance(effect, str) else list(effect.items())[0]


universe = posidonius.Universe(spec.get("initial", u["initial_time"]), spec.get("limit", u["time_limit"]), case["time_step"], case["recovery_snapshot_period"], case["historic_snapshot_period"],
                               posidonius.ConsiderEffects(u["consider_effects"]))
E = posidonius.effects
n = u["n_particles"]
for i in range(n + spec.get("extra", 0)):
    p = u["particles"][min(i, n - 1)]
    far = 1.0 + 0.7 * max(0, i - n + 1)
    pos, vel = axes(p["heliocentric_position"]), axes(p["heliocentric_velocity"])
    if far > 1.0:
        pos = posidonius.Axes(pos.x() * far, pos.y() * far, pos.z() * far)
        vel = posidonius.Axes(vel.x() / math.sqrt(far), vel.y() / math.sqrt(far), vel.z() / math.sqrt(far))
    # what the table of an evolving body has to correct
    tables = u["particles_evolvers"][min(i, n - 1)]
    wrong = spec.get("wrong", 1.0)
    radius = p["radius"] * (wrong if len(tables["radius"]) > 0 and not spec.get("wrong_gyration_only") else 1.0)
    gyration = math.sqrt(p["radius_of_gyration_2"]) * (wrong if len(tables["radius_of_gyration_2"]) > 0 else 1.0)
    b = posidonius.Particle(p["mass"], radius, gyration, pos, vel, axes(p["spin"]))
    odd = spec.get("contradiction") # a body whose tides and flattening do not go together
    r, m = role(p["rotational_flattening"]["effect"])
    if m is not None:
        kind, values = list(m.items())[0]
        if odd == "flattening" and kind == "CreepCoplanar":
            kind, values = "OblateSpheroid", {"love_number": 0.3}
        if odd == "viscosity" and kind == "CreepCoplanar":
            values = dict(values, uniform_viscosity_coefficient=values["uniform_viscosity_coefficient"] * 1.5)
        b.set_rotational_flattening(getattr(E.rotational_flattening, r)(getattr(E.rotational_flattening, kind)(values)))
    r, m = role(p["tides"]["effect"])
    if m is not None:
        kind, values = list(m.items())[0]
        values = {k: v for k, v in values.items() if k not in ("polynomials", "kaula_tidal_force")}
        if odd == "tides" and kind == "CreepCoplanar":
            kind, values = "ConstantTimeLag", {"love_number": 0.3, "dissipation_factor": 1.0, "dissipation_factor_scale": 1.0}
        b.set_tides(getattr(E.tides, r)(getattr(E.tides, kind)(values)))
    r, m = role(p["general_relativity"]["effect"])
    if r == "CentralBody":
        b.set_general_relativity(E.general_relativity.CentralBody(m))
    elif r == "OrbitingBody":
        b.set_general_relativity(E.general_relativity.OrbitingBody())
    r, m = role(p["disk"]["effect"])
    if r == "CentralBody":
        b.set_disk(E.disk.CentralBody(m))
    elif r == "OrbitingBody":
        b.set_disk(E.disk.OrbitingBody())
    if p["wind"]["effect"] != "Disabled":
        b.set_wind(E.wind.Interaction(p["wind"]["parameters"]["input"]))
    r, m = role(p["evolution"])
    if m is not None:
        b.set_evolution(getattr(posidonius, r)(m))
    r, m = role(p["reference"])
    if m is not None:
        b.set_reference(ReferenceParticle(m))
    universe.add_particle(b)
for name in [sys.argv[2]] + spec.get("more", []):
    if spec["integrator"] == "whfast":
        universe.write(name, integrator="WHFast", whfast_alternative_coordinates=spec["coords"])
    else:
        universe.write(name, integrator=spec["integrator"])
