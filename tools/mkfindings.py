"""Writes known_findings.json: known findings (suppress one construct each) and fixed records (suppress nothing)."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = [
    ("C02", "project", "CylindricalPos -> RadialPos", "computes CylindricalPos.rho,",
     "represent_as(CylindricalPos, RadialPos) returns rho and ignores z (transform/d3.py); pinned by tests/test_d3.py::test_cylindrical_to_radial"),
    ("C02", "project", "CylindricalPos -> RadialPos via method", "computes CylindricalPos.rho,",
     "CylindricalPos.represent_as(RadialPos) returns rho and ignores z (transform/d3.py); pinned by tests/test_d3.py::test_cylindrical_to_radial"),
    ("C14", "length", "CartesianVel3D.from_", "entries give CartesianVel3D",
     "CartesianVel3D.from_(array) takes an array whose last axis is not of length 3 and repeats or drops entries; a doctest of AbstractVel.__eq__ builds one from (3, 2)"),
    ("C14", "length", "CartesianVel3D.from_ batch (a,)", "entries give CartesianVel3D",
     "CartesianVel3D.from_(array) takes an array whose last axis is not of length 3 and repeats or drops entries; a doctest of AbstractVel.__eq__ builds one from (3, 2)"),
    ("C14", "length", "CartesianVel3D.from_ batch (a, b)", "entries give CartesianVel3D",
     "CartesianVel3D.from_(array) takes an array whose last axis is not of length 3 and repeats or drops entries; a doctest of AbstractVel.__eq__ builds one from (3, 2)"),
]
FIXED = [
    ("C08", "2e36a80", "a RadialPos/SphericalPos built with a DistanceModulus below zero (closer than 10 pc) was rejected as a negative radius"),
    ("C08", "5a1c1c0", "azimuths passed as Angle were stored unwrapped (phi=Angle(370 deg) stayed 370 deg)"),
    ("C02", "ab8e4d0", "dimension changes of positions whose radius is a Parallax or DistanceModulus used the raw value as a length"),
    ("C09", "8116613", "SphericalPos.from_(r=DistanceModulus(-1 mag), ...) flipped the direction although the distance is positive"),
    ("C09", "f703307", "LonLatSphericalPos.from_(lat=200 deg) raised instead of wrapping"),
    ("C04", "7e38e25", "represent_as(LonCosLatSphericalVel, LonCosLatSphericalVel, Quantity) was ambiguous and raised"),
    ("C04", "3a38644", "represent_as(LonCosLatSphericalVel, ProlateSpheroidalVel, p, Delta=...) dropped Delta and raised"),
    ("C04", "379d0a2", "represent_as(ProlateSpheroidalVel, T, p) raised: the Jacobian was vmapped over the scalar Delta"),
    ("C05", "5e73b6d", "accelerations could not be converted to or from ProlateSpheroidalAcc"),
    ("C05", "4111b1f", "represent_as(CartesianAcc3D, SphericalAcc, v, p) left out dJ/dt v, e.g. circular motion got d2_r = -v^2/r"),
    ("C06", "a78f17a", "sums and differences of vectors whose matching components have different units raised"),
    ("C06", "10b9546", "dividing a polar, spherical or cylindrical position by a scalar divided its angles too"),
    ("C06", "933907b", "arithmetic with a ProlateSpheroidalPos raised: its Delta was dropped on the way back"),
    ("C06", "ff99528", "-1 * PolarPos and -1 * MathSphericalPos raised (negative radius)"),
    ("C06", "885dd88", "scaling a position multiplied its Parallax or DistanceModulus, not its distance"),
    ("C07", "4010c76", "CartesianVel2D.norm() and PolarVel.norm(p) raised"),
    ("C07", "2cc78f7", "CartesianAcc1D/2D/3D.norm(vel, pos) raised"),
    ("C11", "34673d4", "FourVector and Space could not be converted to other units: uconvert raised for unit systems, mappings and the consistent option"),
    ("C12", "69ec2f7", "indexing and reshaping a FourVector, and reshaping a Space, raised"),
    ("C12", "25973d9", "T, mT, flatten and ravel of a vector with components of different shapes gave components that no longer match; Space indexing too"),
    ("C12", "b47fe1d", "mT of an N-dimensional vector with three or more batch axes raised"),
    ("C12", "4d05f6b", "indexing an N-dimensional vector could reach into its components axis; ravel lost the components axis"),
    ("C12", "2982f17", "astype and broadcasting treated the attribute Delta of a ProlateSpheroidalPos as a component"),
    ("C12", "6ec8294", "N-dimensional vectors could not be reshaped to a shape given as a tuple, unlike every other vector"),
    ("C17", "fc208ea", "joining an operator with a pipeline (op | Pipe) raised AttributeError"),
    ("C18", "2115564", "simplify_op fused two consecutive rotations in the wrong order"),
    ("C16", "d52cb91", "operators replaced the speed of light of a FourVector by the default"),
    ("C16", "ba5ceec", "composite operators on a quantity, alone or with a time, were ambiguous and raised"),
    ("C18", "49c5fb9", "simplify_op of 1D and 2D translations and boosts compared with three zeros and raised"),
    ("C16", "1ab7258", "a pipeline applied to a single velocity, quantity or other single argument raised or unpacked it"),
    ("C16", "d799be6", "rotating a ProlateSpheroidalPos raised: its focal length was not passed back"),
    ("C19", "ee2e7e3", "ICRS/Galactocentric transformations had no action on a position vector alone, so pipelines of them refused arrays"),
    ("C19", "58864bb", "a Galactocentric frame whose centre is given by a Parallax or DistanceModulus could not be transformed to or from"),
    ("C14", "df4ebf7", "CartesianPos1D.from_([1, 2, 3] m) and the other 1D classes kept the first element only"),
    ("C14", "dc7ecef", "CartesianPos3D, CartesianGeneric3D and CartesianAcc2D built from an array of the wrong length repeated or dropped entries"),
    ("C14", "7a14e9f", "CartesianPosND converted to any quantity class but Quantity got an extra axis"),
    ("C14", "aba8664", "a FourVector with a scalar time and a batch of positions could not be converted to a quantity"),
    ("C27", "27c34ba", "equality of vectors whose components have different units raised, and N-dimensional vectors compared their components axis as if it were a batch axis"),
    ("C27", "330d498", "comparing two FourVectors, or two TwoSpherePos, raised"),
    ("C04", "da78b08", "velocities at a position with an integer-valued Distance radius or focal length could not be converted"),
    ("C05", "da78b08", "accelerations at a position with an integer-valued Distance radius or focal length could not be converted"),
    ("C01", "fda4d3a", "converting the origin from CartesianPos3D or CylindricalPos to a spherical type gave a polar angle of NaN"),
    ("C26", "f9494d7", "the norm and dot product of a FourVector whose radius is a Parallax or DistanceModulus raised"),
    ("C25", "1fcf09a", "Space(length=..., **{'length': ...}) given a dimension twice (by name and by unit) kept one silently: the duplicate check could never fire"),
    ("C04", "87be91d", "represent_as(velocity, T, position) raised when the batch shapes differ, e.g. one position for a batch of velocities"),
    ("C05", "87be91d", "represent_as(acceleration, T, velocity, position) raised when the batch shapes differ"),
    ("C05", "905823d", "accelerations with a prolate velocity and position could not be converted: the point was converted before the velocity"),
    ("C23", "5352ad7", "represent_as of TwoSpherePos and TwoSphereVel, to themselves or to the plane, recursed endlessly"),
    ("C23", "8d8831d", "converting a ProlateSpheroidalVel to LonCosLatSphericalVel lost Delta and raised"),
    ("C23", "647524a", "from_ of a Space was ambiguous and raised an unrelated error"),
    ("C22", "2537e59", "a SphericalPos or LonLatSphericalPos whose radius is a Parallax or DistanceModulus was converted to astropy with that value as the length, or raised"),
    ("C22", "65c9ef1", "the conversion of LonLatSphericalPos to astropy SphericalRepresentation was registered for PhysicsSphericalRepresentation, a class it does not give"),
    ("C32", "af71916", "FourVector.units gave None for the spatial part and FourVector.devices listed the spatial components in place of t and q"),
]
if __name__ == "__main__":
    out = [{"property": p, "rule": r, "construct": c, "match": m, "what": w} for p, r, c, m, w in KNOWN]
    out += [{"property": p, "fixed": f"fixed: property={p} {h} {w}"} for p, h, w in FIXED]
    with open(os.path.join(D, "known_findings.json"), "w") as f:
        json.dump({"findings": out}, f, indent=1)
        f.write("\n")
