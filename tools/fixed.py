"""Write the 'fixed:' lines of known_findings.jsonl from /repo's history (run by hand when a repair is committed)."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    'C01': 'eb5a75a 64e351c efa6883', 'C02': '6026305 100ae77 24cb410 59ab195 bf5baeb 22c9e9e', 'C03': '21ac483 e9f1fe7 8d4f6fe', 'C04': '89a7550 f06a090',
    'C05': 'a11fa67 ac82fca 1b00398 3b3bc3d', 'C06': 'c94b0c1 1a4273a 3ca55ed c239d33 7599877 07530ab ce723f8 198ba64 e383508', 'C07': '7eda0ae 4333f3f d8b4b1c',
    'C08': '0acedeb 9003d85', 'C09': 'eb478d7 46b5a2f 7496561 9ed1292 deb0866', 'C10': '5eff746', 'C20': '870abae 839c74c a35bbb2 398c3d8',
    'C23': '3030f62 a4823e9 f282cca 701907a c70db6f 8f77a7f a6e1236', 'C19': 'b59a20c b437749 49d3618 d6c94d8', 'C21': 'cf209c1 e2107b3 0a454f0 c930c0d 6bea0dc ee81fc0',
    'C22': '618bb24 0db5c7c c48c6a1 7801d39 5e76c20 a61410c 021871c', 'C12': '3a9e8b0 10e67bf', 'C11': '7c484b1 c918bbd 2fd80ce 7cfde29 2b788a9', 'C13': '9b72a3e 4b424e6 dcf5b68 c4353a9',
    'C14': 'f0e548d f8f82cb 47ddea3 74bc5f3 66042e9', 'C15': '61071c5 ceb32d0 23fb66b 69168ec 751732f 25a2f26 ea857a2 cbdcfd1', 'C17': '366f371 e9bbc09 70427aa 1c13de5 7f1e811',
    'C16': '2bc8978 a868c47 249d39d', 'C18': 'b7bbcd2 de31a19 7e35e98 e6a9256 5349968 c205f5e 4f3879c 37e0bbf 272cc17 08ecbc9',
}
# later commits name their property here, by the words their subject starts with
LATER = [
    ('short zenith integrations shifted the so', 'C18'),
    ('TBXFile could not zero-fill gaps in conv', 'C06'),
    ('VDIF frames at the start of a second cou', 'C29'),
    ('SDFITS code -4 is LR', 'C29'),
    ('SDFITS files mixed up the polarizations ', 'C29'),
    ('simulated DRX tones jumped in phase from', 'C29'),
    ('a DRX frame with an impossible time offs', 'C29'),
    ('SDFITS scan numbers overflowed beyond 32', 'C29'),
    ('DRX frames lost their tuning word when t', 'C29'),
    ('amplitude self-calibration compounded it', 'C30'),
    ('auto-correlations were misread as baseli', 'C30'),
    ('CLEANed sources were displaced by one pi', 'C30'),
    ('the CLEAN beam was fit off-center for uv', 'C30'),
    ('CLEAN failed for beams narrower than two', 'C30'),
    ('CLEAN put components near 0h right ascen', 'C30'),
    ('the sub-pixel offsets of point sources w', 'C30'),
    ('the image background was pulled toward z', 'C30'),
    ('a flat image had a background of NaN', 'C30'),
    ('images with an odd number of pixels were', 'C23'),
    ('CLEAN failed or wandered off for peaks n', 'C30'),
    ('settings of an observation in an SDF lea', 'C24'),
    ('the beam type of a step in an SDF leaked', 'C24'),
    ('settings of a scan or alternate phase ce', 'C25'),
    ('rendering an SDF or IDF again grew the s', 'C24'),
    ('FEE power settings for only one polariza', 'C24'),
    ('session flags that are 0 in an SDF were ', 'C24'),
    ('durations given as astropy quantities al', 'C24'),
    ('start times given as astropy.time.Time i', 'C24'),
    ('times within half a millisecond of the n', 'C24'),
    ('UTC offsets with a single digit hour wer', 'C24'),
    ('an out-of-range declination raised a Nam', 'C24'),
    ('sdf.Project.autofilled always raised a N', 'C24'),
    ('observations of the wrong type were sile', 'C24'),
    ('beam steps could not be created from ast', 'C24'),
    ('steps had to be above the horizon for th', 'C24'),
    ('stepped observations without steps raise', 'C24'),
    ('beam-dipole mode used half-integer stand', 'C24'),
    ('the spectrometer setup of a session coul', 'C24'),
    ('SDFs could only be generated from IDFs w', 'C25'),
    ('the ASP filter of a scan was lost when g', 'C25'),
    ('proper motion across RA 0h made generati', 'C25'),
    ('angles within rounding of a whole minute', 'C26'),
    ('negative angles lost their sign as hours', 'C26'),
    ('adding hours, minutes and seconds droppe', 'C26'),
    ('times within half a millisecond of the n', 'C26'),
    ('loading a date with seconds that are out', 'C26'),
    ('the day of the week was wrong at midnigh', 'C26'),
    ('range_hours gave 24 instead of 0 for neg', 'C26'),
    ('tt_to_tdb took TT for TAI and was 32 sec', 'C26'),
    ('angular separations and position angles ', 'C26'),
    ('get_ecl_from_rect always raised a TypeEr', 'C26'),
    ('rise, set and transit times failed for s', 'C26'),
    ('transit times were up to half a minute o', 'C26'),
    ('proper motions were ignored in apparent ', 'C26'),
    ('copies of converted positions lost their', 'C26'),
    ('the parallax of resolved sources was tak', 'C26'),
    ('times from 196 MHz clock samples were of', 'C26'),
    ('times within half a millisecond of midni', 'C26'),
    ('equatorial positions obtained from horiz', 'C26'),
    ('coherent dedispersion with a DM of zero ', 'C27'),
    ('coherent dedispersion left the end of so', 'C27'),
    ('incoherent dedispersion of a single chan', 'C27'),
    ('smooth() dropped a sample of data as lon', 'C28'),
    ('ndft() truncated the frequencies for int', 'C28'),
    ('gaussparams() failed for 2-D integer dat', 'C28'),
    ('the half-sample mode ignored half sample', 'C28'),
    ('modes of integers along an axis were tru', 'C28'),
    ('robust polynomial fits of order zero lef', 'C28'),
    ('robust fits of masked arrays without a m', 'C28'),
    ('robust fits of many points with few good', 'C28'),
    ('spectral kurtosis along other axes used ', 'C28'),
    ('spectral kurtosis limits that fail left ', 'C28'),
    ('the descattered profile was lost for tim', 'C28'),
    ('a scattering search without a solution f', 'C28'),
    ('ARX filter 7', 'C31'),
    ('the phases of NEC', 'C31'),
    ('the solid angle of a sky', 'C31'),
    ('altitudes given as ephem', 'C31'),
    ('the Stokes V response of a beam', 'C31'),
    ('the NEC beam models were', 'C31'),
    ('USTEC uncertainties', 'C33'),
    ('the time of day was left out', 'C33'),
    ('lsl.catalog could only be', 'C34'),
    ('TEC maps less than two', 'C33'),
    ('ionospheric pierce points', 'C33'),
    ('the positions of PKS90', 'C32'),
    ('a TEC map that could not', 'C33'),
    ('the declination of a field', 'C33'),
    ('MJDs out of range on the comm', 'C34'),
    ('lsl.reader.buffer exported', 'C34'),
    ('NaN was accepted as a positive', 'C34'),
    ('colored text with backslashes', 'C34'),
    ('text with unpaired braces', 'C34'),
    ('busy indicators could overwrite', 'C34'),
]
p = os.path.join(HERE, 'known_findings.jsonl')
keep = [l for l in open(p).read().split('\n') if l.startswith('{')]
by = {h: k for k, v in MAP.items() for h in v.split()}
out = []
for line in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'd8da113..HEAD'], capture_output=True, text=True).stdout.split('\n'):
    if not line:
        continue
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        print('not a fix:', line)
        continue
    k = by.get(h) or next((k for w, k in LATER if s[5:].startswith(w)), None)
    if k is None:
        print('no property for', line)
        continue
    out.append('fixed: property=%s %s %s' % (k, h, s[5:]))
open(p, 'w').write('\n'.join(keep + out) + '\n')
