"""writes known_findings.json; the file is only ever written by hand through this script, never by a check"""
import json

OPEN = []
FIXED = []


def open_(id, property, harness, check, what, **kw):
    OPEN.append(dict(status="open", id=id, property=property, harness=harness, check=check, what=what, **kw))


def fixed(property, commit, what):
    FIXED.append(dict(status="fixed", property=property, commit=commit, what=what, text=f"fixed: property={property} {commit} {what}"))


for sh in ([4], [2, 4], [2, 2, 4]):
    open_(
        "KF1", "S02", "sample_kernels", "raises:RuntimeError",
        "sample_kernels raises for a series exactly as long as the kernel (randint with an empty range) although the size check admits it",
        detail="*expects 'from' to be less than 'to'*", cfg=dict(shape=sh, k=4),
    )
open_(
    "KF2", "P01", "lognormal low", "inside support[0]",
    "LogNormal(low=2) declares support above 2 but draws values below it",
    cfg=dict(low=2.0),
)
open_(
    "KF3", "P02", "lognormal", "raises:AttributeError",
    "LogNormal.log_prob raises under (default) argument validation: support is a method, not a constraint",
    detail="*has no attribute 'check'*",
)
fixed("D02", "C1", "windows of a chunk whose length differs from the first chunk straddled channels and chunk elements")
fixed("D02", "C2", "chunks exactly as long as the kernel raised and the last window of a chunk could never be drawn")
fixed("D03", "C3", "files exactly as long as the kernel raised and the last window of a file could never be drawn")
fixed("P02", "C4", "log density of the comoving-volume priors was NaN between zero distance and the first grid point")
fixed("P02", "C5", "log density of the cosine and sine priors was not normalized")
fixed("F02", "C6", "normalize_by_psd returned an empty series when there was nothing to crop")
fixed("F02", "C7", "FixedWhiten cropped one sample too few per edge when fduration * sample_rate / 2 is whole but fduration is not a float32")

fixed("F02", "C8", "fitting a spectral transform to a series with overlap=0 used an overlap of half the FFT length")
fixed("T12", "C9", "a transform was marked as built, and ran on zeros, after loading a state without its fitted values")

fixed("T05", "C10", "decimation with gaps, a start later than zero, single-sample rows or rows that are not a whole number of steps kept the wrong samples or raised IndexError")
fixed("T06", "C11", "time-domain heterodyned series of odd length came back one sample short")
fixed("T04", "C12", "the Q-transform wrote default frequency limits into the list passed as frange, so a later transform used the limits of the first")
fixed("T04", "C13", "the spline-interpolated Q-transform could return one time bin too many (49 bins requested gave 50)")
fixed("T04", "C14", "a frequency search range extending beyond the highest tile raised IndexError")
fixed("T09", "C15", "the leaky integrator started from minus the lower bound instead of zero for non-zero lower bounds")
fixed("T10", "C16", "coordinates passed to one spline interpolation call silently replaced those given at construction in later calls")
fixed("N01", "C17", "an explicit offset of zero made the online averager raise (empty slice)")
fixed("N04", "C18", "autoencoders without a skip connection could not decode (TypeError on the missing states)")
fixed("N04", "C19", "decoder stages were connected with encoder states in the wrong order, the innermost stage with none and the output layer with one")
fixed("N04", "C20", "the default output activation was the activation class, so the last decoder returned a module")
fixed("N04", "C21", "the innermost decoder layer was sized for concatenated input it never gets")
fixed("N04", "C22", "grouped concatenation split by chunks of `groups` channels rather than into groups")
fixed("N04", "C23", "a residual network with one layer raised UnboundLocalError")
fixed("N04", "C24", "cropping by two or more samples returned an empty or misplaced series")
fixed("W06", "C25", "the ringdown amplitude was proportional to the radiated mass fraction instead of its square root, so the wave did not carry the requested energy")
fixed("W06", "C26", "the ringdown cross polarization carried 2 sin(inclination) instead of 2 cos(inclination): face-on holes had linear polarization, edge-on ones circular")
fixed("W04", "C27", "the phase derivative returned beyond the inspiral lacked the matching slopes, so it was not the derivative of the phase and jumped at the junctions")
fixed("W05", "C28", "PhenomPv2 passed the squared spins in the opposite order to the spins, so the amplitude of unequal spins was off by up to 1e-3")
fixed("W05", "C29", "PhenomPv2 ignored the coalescence phase (and changed sign) for exactly aligned spins and lost it to rounding for nearly aligned ones")
fixed("W05", "C30", "PhenomPv2 returned NaN for nearly equal masses, where rounding makes 1 - 4 eta negative")
fixed("W05", "C31", "the coalescence time of PhenomPv2 was scaled by the total mass and lacked 2 pi, so it shifted by microseconds instead of seconds")
fixed("W05", "C32", "table interpolation at the first grid point extrapolated the last segment")


if __name__ == "__main__":
    import subprocess

    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h", "--grep=^fix:"], capture_output=True, text=True).stdout.split()
    for f in FIXED:
        h = log[int(f["commit"][1:]) - 1]
        f["text"] = f["text"].replace(f" {f['commit']} ", f" {h} ")
        f["commit"] = h
    json.dump(OPEN + FIXED, open("known_findings.json", "w"), indent=1)
    print(len(OPEN), len(FIXED))
