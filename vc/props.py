"""Which contracts and lemmas decide which property."""
from .contracts import time as ctime, frames, deep, sgp4, tle
from .spec import *
from .special import Part, history, geometry
from .lemmas import LEMMAS

EXT = 'satellite::ext::'; TR = 'satellite::transforms::'; PR = 'satellite::propogation::'; IO = 'satellite::io::'
V = 'satellite::Vec3::'

PROPS = {
    'C01': [EXT + 'jday', EXT + 'jday_datetime'],
    'C02': [EXT + 'days2mdhms'],
    'C03': [PR + 'gstime::gstime', PR + 'gstime::gstime_datetime', EXT + 'jday_datetime', EXT + 'jday'],
    'C04': [TR + n for n in ('radians_to_degrees', 'degrees_to_radians', 'degrees_lat', 'degrees_long', 'radians_lat', 'radians_long')],
    'C05': [TR + 'geodedic_to_ecf'],
    'C06': [TR + 'eci_to_geodedic'],
    'C07': [TR + 'ecf_to_eci', TR + 'eci_to_ecf'],
    'C08': [TR + 'topocentric', TR + 'topocentric_to_look_angles', TR + 'ecf_to_look_angles', TR + 'geodedic_to_ecf', V + 'subtract'],
    'C09': ['satellite::doppler_factor::doppler_factor', V + 'range', V + 'add'],
    'C10': [IO + n for n in ('parse_satrec', 'twoline2satrec', 'Satrec::zero')] + [EXT + 'days2mdhms', EXT + 'jday'],
    'C11': [Part(f, only='no panic') for f in [IO + n for n in ('parse', 'parse_multiple', 'twoline2satrec', 'parse_satrec', 'Satrec::zero')] +
            [PR + n for n in ('sgp4init::sgp4init', 'sgp4::sgp4', 'initl::initl', 'gstime::gstime', 'dscom::dscom', 'dsinit::dsinit', 'dspace::dspace', 'dpper::dpper')] + [EXT + 'days2mdhms', EXT + 'jday']],
    'C12': [IO + 'parse', IO + 'twoline2satrec'],
    'C13': [IO + 'parse_multiple', IO + 'twoline2satrec'],
    'C14': [PR + 'initl::initl', PR + 'gstime::gstime'],
    'C16': [PR + 'dscom::dscom'],
    'C17': [PR + 'dsinit::dsinit'],
    'C18': [PR + 'dpper::dpper'],
    'C15': [PR + n for n in ('sgp4init::sgp4init', 'initl::initl', 'gstime::gstime', 'dscom::dscom', 'dsinit::dsinit')],
    'C19': [PR + 'dspace::dspace'],
    'C20': [PR + n for n in ('sgp4::sgp4', 'dspace::dspace', 'dpper::dpper', 'sgp4init::sgp4init', 'initl::initl', 'dscom::dscom', 'dsinit::dsinit', 'gstime::gstime')],
    'C21': [Part(PR + 'sgp4::sgp4', only=r'ret\.#|ret\.Err\..*|satrec\.error'), PR + 'sgp4::SGP4Error::code'],
    'C22': [PR + 'propogate_datetime', EXT + 'jday'],
    'C23': [Part(PR + 'sgp4::sgp4', gen=history)],
    'C24': [Part(PR + 'sgp4::sgp4', gen=geometry)],
}
def parts(prop): return [q if isinstance(q, Part) else Part(q) for q in PROPS[prop]]

def context(p):
    """every contract that can be stated for this tree; {what: reason} for the rest"""
    cx = Ctx(p)
    problems = {}
    for m in (ctime, frames, deep, sgp4, tle):
        try: m.install(cx)
        except Exception as e: problems[m.__name__.rsplit('.', 1)[1]] = '%s: %s' % (type(e).__name__, e)
    return cx, problems
