#!/usr/bin/env python3
"""Write /verif/known_findings.json. Findings are identified by the input that fails; fixed ones suppress nothing."""
import json
import pathlib

FIXED = [
    ("C01", "560aa9a", "the polar-cap Slepian matrix stored arrays instead of scalars in the Legendre table (construction raised or warned with current numpy)"),
    ("C01", "35331c7", "the Shannon number of a polar gap counted one cap only"),
    ("C19", "4585c99", "an exception in a worker of the parallel eigenproblem was discarded and a wrong solution saved"),
    ("C12", "c97081c", "MeshNoiseField was built from the Slepian mesh field class"),
    ("C20", "ced53d9", "normalised plots of small-amplitude fields were treated as constant"),
    ("C09", "f5f8aa3", "zero Slepian wavelet scales in the middle were dropped, so coefficients no longer matched their wavelets"),
    ("C15", "c0643f7", "a mesh rank beyond the number of basis functions was accepted or failed late"),
    ("C17", "5bfe912", "a polar cap order whose eigenvectors were not all saved was read back wrongly"),
    ("C17", "b9a209b", "regions whose angles round to the same degree shared saved eigensolutions"),
    ("C17", "4ac5dfb", "recomputing the basis of a mesh gave other functions than the saved ones"),
    ("C18", "6379142", "an unreachable Zenodo record made every lookup raise instead of using local data"),
    ("C18", "6367923", "an unusable answer about the Zenodo record made the first lookup raise"),
    ("C20", "f8a8aab", "the spin was ignored in find_max_amplitude"),
    ("C22", "c703b06", "Slepian coefficients of a convolution with the Earth were rotated as if harmonic ones"),
    ("C22", "c8bef0c", "a translated sphere plot with its annotation (the default) was rejected by the validation of PlotSphere"),
    ("C03", "8db9a41", "the harmonic fields of SlepianArbitrary were not declared, so construction failed"),
    ("C06", "84a4ab8", "Slepian translations were evaluated at another grid sample than the requested one"),
    ("C09", "c92189c", "a Slepian wavelet scale without coefficients raised IndexError instead of being zero"),
    ("C10", "6c2e1c2", "the singular mesh Laplacian was inverted about zero"),
    ("C10", "17838bb", "copies of repeated eigenvalues of the mesh Laplacian were missed"),
    ("C12", "caa880a", "Slepian signals with coefficients beyond the Shannon number could not be noised"),
    ("C14", "8fec4e1", "the documented exponent of the Gaussian was not the one computed"),
    ("C13", "33304be", "thresholding real Slepian wavelet coefficients dropped the imaginary part of the result"),
    ("C24", "8c07cb3", "hard thresholding overwrote the wavelet coefficients it was given"),
    ("C14", "f9ef4f8", "the identity function was marked real although its coefficients are not those of a real field"),
    ("C15", "e3cea0d", "a negative minimum wavelet scale corrupted the memory of the process instead of being rejected"),
    ("C10", "1d695bd", "the mesh forward transforms dropped the imaginary part of complex signals"),
    ("C06", "5bcb597", "Slepian translations to longitudes outside the grid's range, a turn away, went to the last sample"),
    ("C22", "6b009b5", "angles just below a full turn were moved to the last longitude instead of the nearest one"),
    ("C23", "ee1325e", "fractions above one lost their denominator in names, which 3 and 3/2 then shared"),
    ("C06", "15c5ff9", "functions given a region whose mask has dirac_delta in its name were translated as Dirac deltas"),
    ("C22", "57d5dd7", "functions given a region whose mask has earth in its name were rotated to the view of the Earth"),
]
out = {"findings": [{"property": p, "status": "fixed", "commit": c, "summary": s,
                     "line": f"fixed: property={p} {c} {s}"} for p, c, s in FIXED]}
(pathlib.Path(__file__).resolve().parents[1] / "known_findings.json").write_text(json.dumps(out, indent=1) + "\n")
print(len(FIXED))
