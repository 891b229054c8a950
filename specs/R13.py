from registry import *
import importlib
_r12 = importlib.import_module('R12')
UNITS = dict(_r12.UNITS, engine='$REPO/src/engine.cc')
TRUSTED = ['std::map and std::string contracts (one entry per key, insert does not replace, iteration visits every entry once)', 'mutex contracts', 'area and ring construction, comparison and mask application by the contracts proved in R02, R12']
ASSUMPTIONS = ['names are null terminated strings', 'at most 2^20 registered objects', 'other threads use the registries only through these functions (rely)']
TASKS = [('add_area', task_add_area), ('add_ring', task_add_ring({'reg'})), ('add_ring2', task_add_ring2({'reg'})), ('find', task_find), ('list', task_list), ('apply_mask', task_apply_mask), ('process', task_process_rings({'reg'})), ('kill', task_kill), ('area', _r12.area_ops), ('area_ctor', _r12.area_ctor), ('area_eq', _r12.area_eq)]
REPLAY = {'src': 'R13.cc', 'timeout': 200, 'libs': ['-Wl,--wrap=pthread_create,--wrap=_Znwm,--wrap=pthread_join,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock']}
