"""property id -> rule function"""
CHECKS={}
ASSUME={'*':['The models of standard-library and rustc functions in engine/handlers.py describe those functions.',
 'External crates (rustc_utils, indexical, rustc) behave as documented; a call into them is an uninterpreted symbol.',
 'Paths that end in a panic are excluded from coverage obligations unless the property is about panics.']}
def check(pid,*assume):
    def d(f): CHECKS[pid]=f; ASSUME.setdefault(pid,[]).extend(assume); return f
    return d
import mutation,analysis,fixpoint,places,pointers,recurse,ide,plugin,driver,ifc,ts_focus,ts_ext,wirefmt,programs,ts_setup
