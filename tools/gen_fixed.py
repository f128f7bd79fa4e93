#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from the fix: commits of
/repo.  The property each one belongs to is listed here by subject line."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
 "grayscale, blur, Otsu and resize of images beyond 4 GB left pixels unset or never ended": "C26",
 "corner response of images with 2^32 or more pixels wrote beyond its buffers": "C26",
 "morphology on images with more than 2^31 pixels accessed memory before them": "C26",
 "borders around images beyond 4 GB left most of the result unset": "C26",
 "circles and disks right of column 2^30 were not drawn": "C26",
 "histogram counts wrapped around at 2^32 pixels": "C26",
 "corner peaks of responses with more than 2^31 pixels were wrong": "C26",
 "drawing and detecting corners in images beyond 4 GB crashed the CLI": "C21",
 "too large images were saved with truncated sizes or crashed the CLI": "C21",
 "foerstnerCorner (Haskell) returned a vector beyond the C buffer": "C25",
 "watershedSegmentation (Haskell) leaked the markers if the call failed": "C25",
 "clamp the double thresholds of Otsu to 0..255": "C09",
 "compute the Otsu variance in double precision": "C09",
 "blur with a tiny radius divided infinity by infinity": "C10",
 "resize lost a pixel to the rounding error of the scale factor": "C11",
 "resize painted black or shifted pixels when only one axis shrinks": "C11",
 "Sobel edge detection of RGB images read beyond the buffer": "C13",
 "repeated watershed markers overflowed the queue": "C14",
 "histogram bar heights overflowed for more than 21 million pixels": "C15",
 "a circle or disk of radius 0 painted diagonal neighbours": "C16",
 "drawing with a huge radius or center overflowed and did not end": "C16",
 "corner response of an image smaller than the window read out of bounds": "C17",
 "corner response amplified rounding errors of straight edges": "C17",
 "callers freed the static identity matrix, and its allocation was unchecked": "C18",
 "warping changed the flip matrix of the caller": "C18",
 "warping converted far-away source positions to integers out of range": "C01",
 "degenerate corners with large coordinates were not recognised": "C18",
 "corner detection leaked the peak list": "C02",
 "corner detection crashed if it found fewer than four peaks": "C19",
 "corner detection ended the process, leaked the segmentation and missed failures": "C04",
 "corner detection and extraction reported success when memory ran out or the image was empty": "C04",
 "invalid EXIF orientation values were returned to the caller": "C20",
 "EXIF orientation was read from outside of its segment and not behind fill bytes": "C20",
 "the CLI reported success if the output file could not be written": "C23",
 "the CLI cut off marker lists after 63 characters": "C22",
 "the CLI misread the first of several quoted watershed markers": "C22",
 "the CLI truncated rotation angles to whole degrees": "C22",
 "the CLI took malformed numbers for 0 or ignored them": "C22",
 "the CLI drew malformed colors as white": "C22",
 "the CLI crashed or went on with wrong results when memory ran out": "C23",
 "the CLI accepted partially read input files": "C23",
 "the CLI reported success if detected corners could not be printed": "C23",
 "watershed converted far-away markers to integers out of range": "C01",
 "morphology with a huge radius overflowed and did not end": "C01",
 "EXIF orientation was ignored for other file extensions": "C20",
 "the CLI ignored EXIF orientation if the input could not be rewound": "C23",
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        s = s[5:]
        out.append(f"fixed: property={PROP[s]} {h} {s}")
p = V + "/known_findings.json"
k = json.load(open(p)); k["fixed"] = out
json.dump(k, open(p, "w"), indent=1)
print(len(out), "fixed")
