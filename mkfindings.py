#!/usr/bin/env python3
"""Writes known_findings.json: defects repaired in /repo (status fixed, they suppress nothing) and recorded ones (status known)."""
import json, subprocess
FIXED = [
 ('P02', 'clip map data limits', 'limits wider than an integer map type were cast without clipping (overflow), so in-range data was blanked or out-of-range data stored'),
 ('P03', 'update unset extrema', 'merging extrema into extrema without minimum or maximum dropped the other side'),
 ('P07', 'sign of linear coefficient', 'orthographic maps of oblate bodies with a tilted axis intersected the mirrored line of sight'),
 ('P28', 'convergence of bracketed root finding', 'bracketed root finding stopped at wrong arguments or reported divergence for attainable roots'),
 ('P28', 'root finding never ended for some rows', 'the bracketed search stepped onto a pole, where the derivative is NaN, and gave up: no Mercator map of 2400x2000 pixels or 192x161 pixels could be made'),
 ('P28', 'quadratic with a double root', 'a quadratic with a double root at zero gave NaN'),
 ('P16', 'accept tangent and receding', 'tangent and receding lines were reported as misses'),
 ('P09', 'orient camera toward', 'with a centre latitude/longitude given, the camera was not pointed at it'),
 ('P10', 'image to body conversion is the inverse', 'pix2latlon was not the inverse of latlon2pix'),
 ('P09', 'apply geometric correction', 'requested geometric correction was discarded'),
 ('P12', 'bilinear interpolation between', 'interpolation weights and neighbours were wrong'),
 ('P11', 'refuse nibble values larger', 'nibble values larger than the image wrapped around instead of being refused'),
 ('P11', 'photo validity depends', 'the NaN test looked at the caller\'s value instead of the image pixel'),
 ('P11', 'photo weight is the distance', 'weights were computed from the wrong scans'),
 ('P13', 'source images without data', 'an image without data could overwrite the value of the only image with data'),
 ('P15', 'data scaling for integer types', 'scale/offset chosen for integer types overflowed the type'),
 ('P14', 'cosine backplanes do not abort', 'rounding just beyond +-1 aborted the program'),
 ('P08', 'draw simple cylindrical meridians', 'meridians beyond 360 degrees were missing'),
 ('P08', 'parallels in orthographic grids', 'parallels of retrograde bodies were drawn mirrored'),
 ('P08', 'polar stereographic grids follow', 'polar stereographic grids ignored the map\'s scale and direction'),
 ('P20', 'write maps that consist of a single pixel', 'a 1x1 map was not written'),
 ('P20', 'record user supplied data scale', 'DATA_SCALE and DATA_OFFSET were not recorded'),
 ('P22', 'signs in numeric expressions', 'a sign following a number was lexed as part of the next number, so 1-1 was a syntax error'),
 ('P19', 'refuse fractions and exponents', 'fractions and exponents were silently truncated where an integer is expected'),
 ('P26', 'user configuration entries', 'configuration entries were required together or ignored'),
 ('P18', 'latitude type of a latitude plane', 'LATITUDE: GRAPHIC made later LATITUDE planes and SIMPLE_C maps planetographic'),
 ('P21', 'failures to write, checksum or close', 'write, flush and close failures were ignored: the program reported success with a truncated or corrupt map'),
 ('P23', 'do not read past the first pixel coordinates', 'photo files with three axes were read at an undefined plane'),
 ('P09', 'rotation matrices when body center', 'all positions were garbage when the body centre and the optical axis shared an image line (position angle 0), and contradictory orientations were used with zero matrices'),
 ('P22', 'expressions without a finite value', 'sqrt(-1), exp(1000) and the like were accepted as values'),
 ('P19', 'observer ranges, focal lengths', 'non-positive RANGE, FOCAL_LENGTH and PIXEL_SCALE were accepted or ignored'),
 ('P15', 'record the data scale of planes of 64 bit', 'the scale of planes of LONGLONG maps with several planes was recorded as 0'),
 ('P17', 'merge the map parameters of all photos', 'in a mosaic the data type and header values of the last photo replaced those of the others, even by nothing'),
 ('P17', 'choose the map data type from all map planes', 'the data type of the first plane was used for all planes, so that wider data of later planes was lost'),
 ('P09', 'points behind the observer are not in the image', 'with an observer low over the body and an oblique axis, surface points behind the camera were mapped from the mirrored image position'),
 ('P10', 'image positions facing away from the body', 'positions whose line of sight points away from the body were taken for the body when the line extended backwards meets it'),
 ('P08', 'polar stereographic grid lines without gaps', 'meridians of close-up (maximum latitude near the pole) or large polar stereographic maps, and parallels of large ones, were drawn with gaps'),
 ('P08', 'orthographic grid lines without gaps', 'meridians and parallels of large or close-up (few kilometres per pixel) orthographic maps were drawn with gaps'),
 ('P11', 'too large for an integer', 'a surface point more than 2^64 pixels outside the photo (tiny scale) was read from the first pixel'),
 ('P26', 'empty XDG_CONFIG_HOME', 'with an empty XDG_CONFIG_HOME the configuration in the home directory was not used'),
 ('P26', 'configuration directory that is not a directory', 'with HOME=/dev/null or the like, i.e. no configuration file, the program failed'),
 ('P20', 'texts longer than a header record', 'AUTHOR, ORIGIN and OBJECT texts longer than a header record (68 characters, quotes counting twice) were silently cut off'),
 ('P20', 'continued over several header records', 'a photo\'s AUTHOR or ORIGIN continued over several header records reached the map cut off, with a stray ampersand'),
 ('P02', 'data limits of computed planes of integer maps', 'DATA_MIN and DATA_MAX of a computed plane of an integer map were compared with the stored (scaled) values instead of the physical ones'),
 ('P03', 'recorded data minimum and maximum are physical', 'DATAMIN and DATAMAX of maps with a recorded scale or zero were array values, not physical ones, so that such a map used as a photo came out blank'),
 ('P19', 'refuse maps larger than can be counted', 'a map whose byte count exceeds what the program can count (e.g. 4294967296 x 4294967296) was accepted and ended in an abort or an unrelated failure'),
]
try:
    from findings_more import FIXED2, KNOWN
except ImportError:
    FIXED2, KNOWN = [], []
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines()
out = []
for p, sub, what in FIXED + FIXED2:
    h = [l.split()[0] for l in log if sub in l]
    assert len(h) == 1, (sub, h)
    out.append({'id': 'F-' + h[0], 'property': p, 'status': 'fixed', 'entry': 'fixed: property=%s %s %s' % (p, h[0], what)})
out += KNOWN
json.dump(out, open('known_findings.json', 'w'), indent=1)
print(len(out))
