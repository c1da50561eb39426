"""Facets per property with case counts: (quick, thorough, relative cost)."""
SIZES = {
    'C01': {'big': (160, 1920, 3), 'matrix_trees': (1600, 30000, 1), 'symbolic': (2400, 40000, 1), 'numeric': (1600, 25000, 1), 'deprecated_numeric': (400, 4000, 1),
            'expression': (1600, 20000, 1), 'twins': (480, 5000, 1), 'dependencies': (480, 6000, 1), 'complex': (480, 6000, 1), 'special': (1200, 10000, 1), 'matrix': (600, 5000, 1)},
    'C02': {'roles': (1600, 20000, 1), 'numeric_roles': (600, 8000, 1), 'sequence': (1200, 12000, 1),
            'parameter_as_variable': (300, 3000, 1), 'ode_roles': (600, 6000, 1)},
    'C03': {'big': (120, 1440, 3), 'complex': (320, 4000, 1), 'evaluated': (1000, 25000, 1), 'deep': (320, 6000, 2), 'symbolic': (480, 10000, 1), 'functions': (480, 5000, 1)},
    'C04': {'big': (64, 768, 3), 'evaluated': (600, 12000, 2), 'deep': (96, 3000, 4), 'symbolic': (280, 5000, 2), 'functions': (320, 4000, 1)},
    'C05': {'big': (120, 1440, 3), 'callable': (1200, 15000, 1), 'of_symbolic': (480, 6000, 1), 'order': (800, 8000, 1), 'ode': (320, 4000, 4), 'magnitude': (800, 10000, 1)},
    'C06': {'big': (96, 1200, 3), 'linear': (1600, 12000, 3), 'timescale': (480, 5000, 3), 'random': (640, 8000, 3), 'closed': (1400, 9000, 3), 'options': (640, 5000, 2), 'failure': (160, 1500, 1)},
    'C07': {'big': (120, 1440, 3), 'chi2': (800, 12000, 2), 'vector': (480, 7000, 1), 'numeric': (320, 5000, 1), 'ode': (320, 4000, 1)},
    'C08': {'big': (80, 960, 4), 'tails': (320, 4000, 2), 'likelihood': (400, 10000, 2), 'minimize_model': (440, 10000, 1), 'scalar_only': (160, 1500, 1)},
    'C09': {'binding': (1200, 15000, 1), 'numeric_binding': (320, 4000, 1), 'errors': (960, 10000, 1), 'no_dependent_data': (400, 4000, 1)},
    'C10': {'big': (96, 1152, 4), 'linear': (1200, 10000, 2), 'numeric': (320, 4000, 2), 'nonlinear': (480, 5000, 2),
            'likelihood': (240, 3000, 2), 'quadratic': (480, 6000, 1), 'not_worse': (480, 6000, 2)},
    'C11': {'big': (96, 1152, 4), 'linear': (900, 9000, 2), 'anywhere': (900, 12000, 2), 'other': (640, 8000, 2)},
    'C12': {'fit': (640, 8000, 2), 'handed': (800, 12000, 2)},
    'C13': {'big': (96, 1152, 4), 'linear': (900, 10000, 2), 'single': (480, 6000, 2), 'scalar': (640, 8000, 2)},
    'C14': {'big': (96, 1152, 4), 'matrix': (240, 3000, 2), 'value': (480, 8000, 3), 'data': (240, 2000, 1), 'rejected': (240, 2000, 1), 'optimum': (640, 6000, 2), 'ball': (240, 3000, 2)},
    'C15': {'posed': (640, 12000, 2), 'probe': (400, 6000, 2), 'direct': (640, 8000, 1)},
    'C16': {'chain': (800, 10000, 1), 'sequence': (400, 5000, 2), 'global': (400, 6000, 2)},
    'C17': {'symbols': (160, 3000, 1), 'model': (360, 6000, 1), 'objective': (240, 4000, 1), 'fit': (400, 6000, 2)},
    'C18': {'single': (2400, 40000, 1), 'batch': (3200, 50000, 1), 'unnamed': (800, 10000, 1), 'redeclare': (240, 3000, 1), 'equality': (480, 6000, 1), 'expression': (1200, 20000, 3)},
    'C19': {'made': (1600, 20000, 1), 'fits': (1440, 12000, 2)},
    'C20': {'defaults': (1600, 24000, 1), 'choices': (2400, 30000, 1), 'rejected': (640, 6000, 1)},
    'C22': {'values': (1600, 25000, 1), 'moments': (640, 6000, 1), 'model': (320, 5000, 2), 'fit': (160, 2000, 2), 'relations': (640, 8000, 1)},
    'C23': {'objective': (480, 10000, 1), 'outcome': (640, 8000, 2), 'sigma': (320, 3000, 2), 'affine': (320, 3000, 2), 'scalar': (320, 4000, 2), 'ode': (120, 2000, 2)},
    'C24': {'numeric': (480, 6000, 1), 'models': (2400, 40000, 1), 'lookalikes': (480, 4000, 1), 'large': (16, 80, 8), 'objectives': (1200, 20000, 1), 'negation': (480, 10000, 1), 'negation_bare': (480, 6000, 1)},
    'C25': {'refit': (480, 8000, 2), 'models': (480, 8000, 2), 'fits': (480, 8000, 2), 'ode': (240, 3000, 2), 'inputs': (480, 6000, 1), 'dependencies': (240, 3000, 1)},
    'C21': {'curve': (480, 6000, 1), 'units': (320, 4000, 2), 'surface': (320, 4000, 2), 'ode': (160, 2000, 2)},
}


def facets_of(prop, tier):
    return [dict(name=k, n=v[0] if tier == 'quick' else v[1], weight=v[2]) for k, v in SIZES[prop].items()]
