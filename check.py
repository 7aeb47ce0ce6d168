#!/usr/bin/env python3
"""python3 check.py PROPERTY [--quick|--thorough] [--replay FILE]   (VERIF_SEED, VERIF_TIER from the environment)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
from engine import Part, main

def py(harness, prop, quick, **kw):
    return Part(harness, prop, quick, kind='py', **kw)


CHECKS = {
    'C01': [Part('dist', 'c01_params', 2000000), Part('dist', 'c01_zero', 150000)],
    'C02': [Part('dist', 'c02_probs', 2000000)],
    'C03': [Part('dist', 'c03_sum', 1500000), Part('dist', 'c03_mixture', 1500000), Part('dist', 'c03_scale', 800000)],
    'C04': [Part('funcs', 'c04_values', 1200000), Part('funcs', 'c04_derivative', 300000), Part('funcs', 'c04_threads', 1000, omp=8)],
    'C05': [Part('funcs', 'c05_lognormal_fn', 2400000), Part('funcs', 'c05_invalid', 20000)],
    'C06': [Part('maq', 'c06_accuracy', 18000), Part('maq', 'c06_search', 18000), Part('maq', 'c06_linear', 180000), Part('maq', 'c06_limits', 600000),
            Part('maq', 'c06_noise', 90000), Part('maq', 'c06_nan', 400000), Part('maq', 'c06_zero', 180000), Part('maq', 'c06_settings', 100000),
            Part('maq', 'c06_stats', 90000)],
    'C07': [Part('frag', 'c07_probabilities', 800000), Part('frag', 'c07_reject', 100000)],
    'C08': [Part('frag', 'c08_loss', 1200000), Part('frag', 'c08_reject', 100000)],
    'C09': [Part('rel', 'c09_points', 144000), Part('rel', 'c09_rates', 240000)],
    'C10': [Part('rel', 'c10_rate', 100000), Part('rel', 'c10_queries', 12000, batch=75), Part('rel', 'c10_monotone', 40000)],
    'C11': [Part('rel', 'c11_choice', 500000), Part('rel', 'c11_rate', 80000), Part('rel', 'c11_replace', 60000)],
    'C12': [Part('comp', 'c12_per_demand', 400000), Part('comp', 'c12_at_intensity', 16000)],
    'C13': [Part('comp', 'c13_annual_cost', 3200, batch=100), Part('comp', 'c13_rates', 4800, batch=150), Part('comp', 'c13_lambda', 1600, batch=50),
            Part('comp', 'c13_proportional', 1600, batch=50)],
    'C14': [Part('struct', 'c14_weights', 180000), Part('struct', 'c14_end_to_end', 120000), Part('struct', 'c14_extreme', 120000),
            Part('struct', 'c14_groups', 120000)],
    'C15': [Part('struct', 'c15_annual', 2400, batch=50), Part('struct', 'c15_density', 30000), Part('struct', 'c15_present_value', 1600, batch=50)],
    'C16': [Part('history', 'c16_histories', 12000, batch=250), Part('history', 'c16_destroy', 10000, batch=250),
            Part('history', 'c16_destroy', 1000, batch=50, conf='asan'), Part('history', 'c16_histories', 480, batch=20, conf='asan')],
    'C17': [Part('cache', 'c17_clear_all', 4000, batch=100, nondet=True), Part('cache', 'c17_stress', 3000, batch=60, nondet=True), Part('cache', 'c17_function', 60000, nondet=True), Part('cache', 'c17_value', 60000, nondet=True), Part('cache', 'c17_registry', 100000), Part('cache', 'c17_arguments', 100000), Part('cache', 'c17_many', 600),
            Part('cache', 'c17_registry', 10000, conf='asan'), Part('cache', 'c17_function', 4000, conf='asan', nondet=True)],
    'C18': [Part('repl', 'c18_history', 200000), Part('repl', 'c18_history', 20000, conf='asan'), Part('repl', 'c18_concurrent', 6000, nondet=True), Part('repl', 'c18_many', 1500)],
    'C19': [Part('threads', 'c19_counts', 2400, batch=100, nondet=True), Part('threads', 'c19_concurrent', 2400, batch=100, nondet=True),
            Part('threads', 'c19_context', 20000, nondet=True), Part('threads', 'c19_context', 2000, conf='asan', nondet=True)],
    'C20': [py('objects', 'c20_functions', 12000), py('objects', 'c20_hazard', 8000), py('objects', 'c20_demand', 5600), py('objects', 'c20_group', 4000),
            py('objects', 'c20_group_annual', 640, batch=20), py('objects', 'c20_structure', 2400, batch=60), py('objects', 'c20_structure_annual', 360, batch=20),
            py('objects', 'c20_settings', 4000), py('objects', 'c20_invalid', 6000), py('redefine', 'c20_redefine', 2400, batch=60)],
    'C21': [py('script', 'c21_model', 3200, batch=50), py('script', 'c21_integration', 3200), py('script', 'c21_malformed', 4800, batch=100)],
    'C22': [py('record', 'c22_ranges', 4000), py('record', 'c22_recorders', 9600, batch=150)],
    'C23': [py('imports', 'c23_demand', 12000), py('imports', 'c23_hazard', 12000), py('imports', 'c23_refused', 6000)],
}

if __name__ == '__main__':
    sys.exit(main(CHECKS))
