"""Writes known_findings.json (run by hand; the checks only read the result)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ('1a14f5b', 'C09', 'a dependent variable given as a single number failed'),
    ('ab1e1bf', 'C11', 'fitting with independent data given as a plain number failed with an AttributeError'),
    ('2708625', 'C25', 'with_dependencies changed the connectivity_mapping given by the user'),
    ('286e85d', 'C14', 'a constraint given as a matrix expression with one element failed in every constrained minimizer of scipy'),
    ('0d9b5a4', 'C21', 'opening the interactive guess failed for data of two variables whose density is below exp(-7) everywhere, e.g. because of their units'),
    ('1dbef0f', 'C10', 'R^2 failed (or broadcast wrongly) for data with more trailing dimensions than its component'),
 ('a2f91ac', 'C01', 'element-wise products and powers of sums of matrices were evaluated without parentheses (A o (B + C) as A*B + C), and element-wise products of three or more matrices lost all but two'),
 ('4ff2237', 'C25', 'running a chain permanently replaced the initial guesses of its minimizers'),
 ('da45e8d', 'C25', 'objectives kept the value that fixed parameters had at the first evaluation'),
 ('ffacf7a', 'C24', 'models with more than 256 components were never equal, not even to themselves (lengths compared by identity)'),
 ('4659dc1', 'C24', 'comparing objectives raised ValueError when one has no data for a component, called data of different shapes equal when they broadcast, and called data equal that differ by small amounts'),
 ('c6edefb', 'C21', 'opening the interactive guess raised ValueError (x and y of different shapes) when a component is constant in the independent variables'),
 ('6d30d1f', 'C20', 'a scalar model with intermediate components and without data raised TypeError instead of being minimised'),
 ('3a88f86', 'C19', 'FitResults.covariance raised TypeError when there is no covariance matrix'),
 ('3239016', 'C18', 'Parameter(0) was accepted: the number zero became the name'),
 ('aae8b15', 'C18', 'parameters() failed for a sequence of names (since 2a0bbd1)'),
 ('1094198', 'C17', 'unnamed symbols created after restoring a pickle in a fresh interpreter took the names of the restored ones'),
 ('8f13577', 'C17', 'negated callable-based models could not be pickled'),
 ('4a4c867', 'C15', 'minimizers used without Fit mixed up parameters that were not listed alphabetically (guesses, bounds and results)'),
 ('0747d16', 'C15', 'minimizers used without Fit raised KeyError for <= constraints'),
 ('2ca6cb9', 'C10', 'TrustConstr crashed on scalar models without derivatives'),
 ('7ecf7b1', 'C25', 'TrustConstr and BasinHopping modified the option dicts of the user'),
 ('698fc66', 'C15', 'the gradient of LeastSquares failed for a mix of real and complex components (TrustConstr with complex-step Hessian)'),
 ('517e02d', 'C07', 'Jacobian and Hessian of least squares with a component constant in the data were wrong or crashed for dependent data of shape (n_params, 1) or (n_params, n_params, 1)'),
 ('708c1fc', 'C04', 'evaluating the Hessian of a model containing Abs (hence fits of such models) raised NameError: DiracDelta'),
 ('2542a4f', 'C03', 'the symbolic Jacobian of a model with three or more layers of components raised an exception'),
 ('2a0bbd1', 'C18', 'parameters() with sequences for min/max accepted inconsistent bounds or compared sequences as a whole'),
 ('2f056be', 'C21', 'the percentile band of an interactive guess added the mean to percentiles that are absolute'),
 ('6cb8a82', 'C21', 'slider limits for negative or zero guesses did not contain the guess, so opening the window changed the guess'),
 ('96edcdf', 'C18', 'a fixed Parameter declared with min > max had neither min nor max'),
 ('00ba664', 'C02', 'a model made from a sequence of 11 or more expressions did not keep their order'),
 ('48f765a', 'C06', 'ODEModel crashed or returned misaligned values for unsorted, repeated or initial-only times'),
 ('5ff966e', 'C09', 'a 0-d array as constant sigma raised an exception'),
 ('6eb6e4f', 'C11', 'the covariance of the free parameters was inverted together with the rows of fixed parameters, and fixed parameters counted as fitted'),
 ('3f8874c', 'C08', 'the Hessian of LogLikelihood was nan when a point is undefined, unlike its value and Jacobian'),
 ('115bffe', 'C07', 'LeastSquares.__call__(flatten_components=False) raised TypeError'),
 ('1b28b05', 'C24', 'comparing objectives with data of different shape or keys raised an exception'),
 ('abd9ef7', 'C04', 'model.hessian of interdependent models lacked the chain rule terms'),
 ('c408ef7', 'C24', 'negating an ODEModel lost its integrator options'),
 ('6f42c7a', 'C24', 'negating a callable-based model raised an exception'),
 ('e3700dc', 'C16', 'a chain with a minimizer that reports no iterations raised TypeError'),
 ('e05d285', 'C16', 'a chain passed the values of fixed parameters on as initial guesses of the next step'),
 ('6825dc4', 'C15', 'TrustConstr used the Hessian of the last constraint for every constraint'),
 ('379e4cc', 'C12', 'the Hessian handed to the minimizer with fixed parameters was a vector of its diagonal instead of a matrix'),
]
findings = [dict(id='fixed-' + h, property=p, status='fixed', commit=h, what=w,
                 line='fixed: property={} {} {}'.format(p, h, w)) for h, p, w in FIXED]
path = os.path.join(V, 'tools', 'known.json')
if os.path.exists(path):
    findings = json.load(open(path)) + findings
json.dump({'findings': findings}, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
