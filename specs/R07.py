from enginelib import *
UNITS = {'engine': '$REPO/src/engine.cc'}
TRUSTED = ['std::sort permutes the range it is given and leaves it ordered by the comparator', 'operator new[] does not fail']
ASSUMPTIONS = ['order keys stay below 2^64 - 1 ns', 'at most 2^27 buffer entries and 2^20 rings', 'the iterator operations by the contracts proved in R01',
               'a window entry belongs to a registered ring (established by the push contract, kept because a ring with fetched records is not retired, R14)']
TASKS = [('tsobuf', task_tsobuf), ('flush_full', task_flush_full({'once', 'order', 'cap', 'lastrec'})), ('flush_tso', task_flush_tso({'once', 'order', 'cap', 'lastrec'})),
         ('process_tso', task_process(True, {'once', 'order', 'cap', 'retire'})), ('process_notso', task_process(False, {'once', 'order', 'retire'})), ('flush_record', task_flush_record({'once'}))]
REPLAY = {'src': 'R07.cc', 'timeout': 200, 'libs': ['-Wl,--wrap=pthread_create,--wrap=pthread_join']}
