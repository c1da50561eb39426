From 379e4ccbfc424a54a8ca9a4f0c8bfcd568b064b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 01/44] fix: hand the full free-parameter Hessian to the
 minimizer

out[mask, mask] selects the diagonal, not the sub-matrix.
---
 symfit/core/minimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index ba79f6a..e6f282b 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -187,7 +187,7 @@ class HessianMinimizer(GradientMinimizer):
             # Make two dimensional, corresponding to a scalar function.
             out = np.atleast_2d(np.squeeze(out))
             mask = [p not in self._fixed_params for p in self.parameters]
-            return np.atleast_2d(out[mask, mask])
+            return out[np.ix_(mask, mask)]
         return resized
 
 
-- 
2.43.0


From 6825dc4698ffe48615449b7a1963fd850e8b8268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 02/44] fix: TrustConstr used the Hessian of the last
 constraint for all of them

---
 symfit/core/minimizers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index e6f282b..b67a49c 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -588,7 +588,9 @@ class TrustConstr(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMi
             }
             # If None is given to NonlinearConstraint it'll throw a hissy fit.
             if con['hess'] is not None:
-                nonlinearconstr_kwargs['hess'] = lambda x, v: con['hess'](x) * v
+                # Bind con now, otherwise all constraints use the last one.
+                nonlinearconstr_kwargs['hess'] = \
+                    lambda x, v, con=con: con['hess'](x) * v
             if con['jac'] is not None:
                 nonlinearconstr_kwargs['jac'] = con['jac']
             tc_con = NonlinearConstraint(**nonlinearconstr_kwargs)
-- 
2.43.0


From e05d2852e52f2518a4f2cbcf906be568b38486ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 03/44] fix: ChainedMinimizer passed fixed parameters on as
 initial guesses

---
 symfit/core/minimizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index b67a49c..3d4f89a 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -261,7 +261,8 @@ class ChainedMinimizer(BaseMinimizer):
         for minimizer, kwargs in zip(self.minimizers, bound_arguments.arguments.values()):
             minimizer.initial_guesses = next_guess
             ans = minimizer.execute(**kwargs)
-            next_guess = list(ans.params.values())
+            # Fixed parameters are not part of the guesses
+            next_guess = [ans.value(p) for p in minimizer.params]
             answers.append(ans)
         final = answers[-1]
         # TODO: Compile all previous results in one, instead of just the
-- 
2.43.0


From e3700dc83b6108ea85e07d9c5f4246a4b80b999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 04/44] fix: ChainedMinimizer crashed on minimizers not
 reporting iterations

MINPACK results have no nit, so iterations is None.
---
 symfit/core/minimizers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 3d4f89a..964b4f6 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -268,7 +268,9 @@ class ChainedMinimizer(BaseMinimizer):
         # TODO: Compile all previous results in one, instead of just the
         # number of function evaluations. But there's some code down the
         # line that expects scalars.
-        final.minimizer_output['nit'] = sum(ans.iterations for ans in answers)
+        final.minimizer_output['nit'] = sum(
+            ans.iterations or 0 for ans in answers
+        )
         return final
 
     def _make_signature(self):
-- 
2.43.0


From 6f42c7a236372139a1b516e40a1c7b3bac056ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 05/44] fix: negating a numerical model always crashed

---
 symfit/core/models.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index dbbe855..9fb7c64 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -617,10 +617,16 @@ class BaseNumericalModel(BaseModel):
         :return: new model with opposite sign. Does not change the model in-place,
             but returns a new copy.
         """
-        new_model_dict = {}
-        for key, callable_expr in self.model_dict.values():
-            new_model_dict[key] = lambda *args, **kwargs: - callable_expr(*args, **kwargs)
-        return self.__class__(new_model_dict)
+        def negate(component):
+            if isinstance(component, sympy.Basic):
+                return - component
+            return lambda *args, **kwargs: - component(*args, **kwargs)
+
+        new_model_dict = self.model_dict.copy()
+        for var in self.dependent_vars:
+            new_model_dict[var] = negate(new_model_dict[var])
+        return self.__class__(new_model_dict,
+                              connectivity_mapping=self.connectivity_mapping)
 
     @property
     def shared_parameters(self):
-- 
2.43.0


From c408ef79452bd71c94ac156d5986323ca87b94d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 06/44] fix: negating an ODEModel dropped its integrator
 settings

---
 symfit/core/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 9fb7c64..39c4675 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1101,7 +1101,8 @@ class ODEModel(BaseGradientModel):
         new_model_dict = self.model_dict.copy()
         for key in new_model_dict:
             new_model_dict[key] *= -1
-        return self.__class__(new_model_dict, initial=self.initial)
+        return self.__class__(new_model_dict, initial=self.initial,
+                              **self.integrator_kwargs)
 
     @cached_property
     def _ncomponents(self):
-- 
2.43.0


From abd9ef7fc6d2c33435f09f9f4bb0cc26c4aadf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 07/44] fix: symbolic Hessian ignored the chain rule for
 interdependent models

---
 symfit/core/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 39c4675..b5025f3 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -930,8 +930,10 @@ class HessianModel(GradientModel):
             second order partial derivatives. Partial derivatives are taken with
             respect to the Parameter's, not the independent Variable's.
         """
-        return [[[sympy.diff(partial_dv, param) for param in self.params]
-                 for partial_dv in comp] for comp in self.jacobian]
+        # Take zero for component which are not present, happens for Constraints
+        return [[[self.hessian_model.get(D(var, p1, p2), 0)
+                  for p2 in self.params] for p1 in self.params]
+                for var in self]
 
     def eval_hessian(self, *args, **kwargs):
         """
-- 
2.43.0


From 1b28b058dbc34e125eb157a42d94d3a125ee3f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 08/44] fix: comparing objectives crashed when their data
 differed in shape or keys

---
 symfit/core/objectives.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index 89255d6..85561d5 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -158,14 +158,17 @@ class BaseObjective(object, metaclass=abc.ABCMeta):
             return False
 
         # Check if the data is also equivalent
+        if self.data.keys() != other.data.keys():
+            return False
         for key, value in self.data.items():
             try:
                 equal = np.allclose(other.data[key], value)
             except TypeError:
                 equal = other.data[key] == value
-            finally:
-                if not equal:
-                    return False
+            except ValueError:  # Shapes cannot be broadcast together
+                equal = False
+            if not equal:
+                return False
         return True
 
     def _sanity_checking(self):
-- 
2.43.0


From 115bffeacc4a89b9f6cf867d6fc37155a68db75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 09/44] fix: LeastSquares(flatten_components=False) tried to
 divide a list

---
 symfit/core/objectives.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index 85561d5..c24e2e6 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -320,8 +320,9 @@ class LeastSquares(HessianObjective):
                 chi2[index] += np.sum(
                     (dep_var_value - dep_data) ** 2 / sigma ** 2
                 )
-        chi2 = np.sum(chi2) if flatten_components else chi2
-        return chi2 / 2
+        if flatten_components:
+            return np.sum(chi2) / 2
+        return [component / 2 for component in chi2]
 
     def eval_jacobian(self, ordered_parameters=[], **parameters):
         """
-- 
2.43.0


From 3f8874c5235a7f83f0dbd2fe29e5f87b6b268ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 10/44] fix: LogLikelihood Hessian did not skip nan like its
 value and Jacobian do

---
 symfit/core/objectives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index c24e2e6..71f0847 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -519,7 +519,7 @@ class LogLikelihood(HessianObjective, BaseIndependentObjective):
                       (1 / f**2)[np.newaxis, np.newaxis, ...] * jac_outer_jac
             # We sum away everything except the matrices in the axes 0 & 1.
             axes = tuple(range(2, len(dd_logf.shape)))
-            result += np.sum(dd_logf, axis=axes, keepdims=False)
+            result += np.nansum(dd_logf, axis=axes, keepdims=False)
 
         return np.atleast_2d(np.squeeze(np.array(result)))
 
-- 
2.43.0


From 6eb6e4f20d007e5a905b8692c6977414b1ebdfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 11/44] fix: covariance treated fixed parameters as if they had
 been fitted

---
 symfit/core/fit.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/symfit/core/fit.py b/symfit/core/fit.py
index 3cbcadb..d6a988c 100644
--- a/symfit/core/fit.py
+++ b/symfit/core/fit.py
@@ -243,7 +243,12 @@ class HasCovarianceMatrix(TakesData):
 
         try:
             # The squeezing to a matrix is required for MinimizeModel objectives
-            hess_inv = np.linalg.inv(np.atleast_2d(np.squeeze(hess)))
+            hess = np.atleast_2d(np.squeeze(hess))
+            # Fixed parameters are constants: they have no (co)variance and do
+            # not affect that of the free parameters.
+            free = [not p.fixed for p in self.model.params]
+            hess_inv = np.zeros(hess.shape)
+            hess_inv[np.ix_(free, free)] = np.linalg.inv(hess[np.ix_(free, free)])
         except np.linalg.LinAlgError:
             return None
 
@@ -254,7 +259,7 @@ class HasCovarianceMatrix(TakesData):
             rss = 2 * objective(**key2str(best_fit_params))
             # Degrees of freedom
             raw_dof = np.sum([np.product(shape) for shape in self.data_shapes[1]])
-            dof = raw_dof - len(self.model.params)
+            dof = raw_dof - len(self.model.free_params)
             if self.absolute_sigma:
                 # When interpreting as measurement error, we do not rescale.
                 s2 = 1
-- 
2.43.0


From 5ff966e06186ab3e89ae62745d6f66e6b6d9626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 12/44] fix: a 0-d array could not be used as a constant sigma

---
 symfit/core/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/fit.py b/symfit/core/fit.py
index d6a988c..47f8b97 100644
--- a/symfit/core/fit.py
+++ b/symfit/core/fit.py
@@ -98,7 +98,7 @@ class TakesData(object):
                 if self.data[var] is not None and self.data[sigma] is None:
                     self.data[sigma] = np.ones(self.data[var].shape)
                 elif self.data[var] is not None:
-                    self.data[sigma] *= np.ones(self.data[var].shape)
+                    self.data[sigma] = self.data[sigma] * np.ones(self.data[var].shape)
 
         # If user gives a preference, use that. Otherwise, use True if at least one sigma is
         # given, False if no sigma is given.
-- 
2.43.0


From 48f765a13231287f1d9a17661434835aac0e2074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 13/44] fix: ODEModel only accepted strictly increasing times

Repeated or unsorted times, or only the initial time, made it crash.
---
 symfit/core/models.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index b5025f3..8ba7429 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1171,13 +1171,11 @@ class ODEModel(BaseGradientModel):
         assert len(self.independent_vars) == 1
         t_initial = self.initial[self.independent_vars[0]] # Assuming there's only one
 
-        # Make sure that t_like is an array
-        try:
-            t_like[0]
-        except (TypeError, IndexError): # Python scalar gives TypeError, numpy scalars IndexError
-            if t_like == t_initial:  # When evaluated only at the initial condition, we know the answer.
-                return np.atleast_2d(initial_dependent).T
-            t_like = np.array([t_like]) # Allow evaluation at one point.
+        # Make sure that t_like is a sorted array without duplicates, as required
+        # by the integrator. `inverse` restores the points as they were requested.
+        t_like, inverse = np.unique(t_like, return_inverse=True)
+        if np.all(t_like == t_initial):  # When evaluated only at the initial condition, we know the answer.
+            return np.atleast_2d(initial_dependent).T[:, inverse]
 
         # The strategy is to split the time axis in a part above and below the
         # initial value, and to integrate those seperately. At the end we rejoin them.
@@ -1240,12 +1238,12 @@ class ODEModel(BaseGradientModel):
 
         if t_initial in t_like:
             # The user also requested to know the value at t_initial, so keep it.
-            return ans
+            return ans[:, inverse]
         else:
             # The user didn't ask for the value at t_initial, so exclude it.
             # (t_total contains all the t-points used for the integration,
             # and so is t_like with t_initial inserted at the right position).
-            return ans[:, t_total != t_initial]
+            return ans[:, t_total != t_initial][:, inverse]
 
     def __call__(self, *args, **kwargs):
         """
-- 
2.43.0


From 00ba6649e77a97e0d3d1e34dc8e8208810606a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 14/44] fix: models from an iterable lost the order of their
 components

The names were based on id only, so sorting them was arbitrary and identical
components were merged.
---
 symfit/core/models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 8ba7429..8ed9ff4 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -139,7 +139,11 @@ class BaseModel(Mapping):
             # the object's ID (preappended with an underscore for it to be a
             # valid identifier) to surpress the DepricationWarnings raised when
             # instantiating a Variable without a name.
-            model = {Variable("_" + str(id(expr))): expr for expr in model}
+            #
+            # The position is included in the name to make sure the components
+            # keep the order they were provided in, also if they are identical.
+            model = {Variable("_{:04d}_{}".format(idx, id(expr))): expr
+                     for idx, expr in enumerate(model)}
         self._init_from_dict(model)
 
     @classmethod
-- 
2.43.0


From 96edcdf23ea091e2340fb1fc2fc3b0972ace6326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 15/44] fix: fixed Parameter with min > max had no min and max
 at all

---
 symfit/core/argument.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/symfit/core/argument.py b/symfit/core/argument.py
index ef0bba0..2557b90 100644
--- a/symfit/core/argument.py
+++ b/symfit/core/argument.py
@@ -119,9 +119,8 @@ class Parameter(Argument):
             if not self.fixed:
                 raise ValueError('The value of `min` should be less than or'
                                  ' equal to the value of `max`.')
-        else:
-            self.min = min
-            self.max = max
+        self.min = min
+        self.max = max
 
     def __eq__(self, other):
         """
-- 
2.43.0


From 6cb8a8231d76a7cf62750ac193dbf7c9adc42567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 16/44] fix: InteractiveGuess sliders changed negative initial
 guesses

A slider from 0 to 2*value clips every negative value to 0.
---
 symfit/contrib/interactive_guess/interactive_guess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfit/contrib/interactive_guess/interactive_guess.py b/symfit/contrib/interactive_guess/interactive_guess.py
index 370d7c0..b96d617 100644
--- a/symfit/contrib/interactive_guess/interactive_guess.py
+++ b/symfit/contrib/interactive_guess/interactive_guess.py
@@ -172,11 +172,11 @@ class InteractiveGuess(TakesData):
                                    facecolor=axbg, label=param)
             val = param.value
             if not hasattr(param, 'min') or param.min is None:
-                minimum = 0
+                minimum = min(0, 2 * val)
             else:
                 minimum = param.min
             if not hasattr(param, 'max') or param.max is None:
-                maximum = 2 * val
+                maximum = max(0, 2 * val)
             else:
                 maximum = param.max
 
-- 
2.43.0


From 2f056be4cec7135a2b6072a83765c79fe801d831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 17/44] fix: InteractiveGuess added the mean to percentiles
 which are absolute already

---
 symfit/contrib/interactive_guess/interactive_guess.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/symfit/contrib/interactive_guess/interactive_guess.py b/symfit/contrib/interactive_guess/interactive_guess.py
index b96d617..4118973 100644
--- a/symfit/contrib/interactive_guess/interactive_guess.py
+++ b/symfit/contrib/interactive_guess/interactive_guess.py
@@ -345,8 +345,7 @@ class StrategynD:
         y_plot_error = np.array(y_plot_error)
 
         xs = np.column_stack((x_plot_data, x_plot_data))
-        yerr = y_plot_error + y_plot_data[:, np.newaxis]
-        y_segments = np.dstack((xs, yerr))
+        y_segments = np.dstack((xs, y_plot_error))
         plot_line, caps, error_lines = self.ig._plots[(indep_var, dep_var)]
         plot_line.set_data(x_plot_data, y_plot_data)
         error_lines[1].set_segments(y_segments)
-- 
2.43.0


From 2a0bbd1e59c7762ee8e7bf1c925539f08c573868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 18/44] fix: bounds given to parameters() as sequences were not
 validated properly

The check exhausted iterators so their values were lost, could not handle
None, and was skipped when only one of the bounds was a sequence.
---
 symfit/core/support.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/symfit/core/support.py b/symfit/core/support.py
index 58a4376..f9f3341 100644
--- a/symfit/core/support.py
+++ b/symfit/core/support.py
@@ -210,12 +210,6 @@ def parameters(names, **kwargs):
         else:
             sequences[attr] = kwargs.pop(attr)
 
-    if 'min' in sequences and 'max' in sequences:
-        for min, max in zip(sequences['min'], sequences['max']):
-            if min > max:
-                raise ValueError('The value of `min` should be less than or'
-                                 ' equal to the value of `max`.')
-
     params = symbols(names, cls=Parameter, seq=True, **kwargs)
     for key, values in sequences.items():
         try:
@@ -223,7 +217,7 @@ def parameters(names, **kwargs):
         except AssertionError:
             raise ValueError(
                 '`len` of keyword-argument `{}` does not match the number of '
-                '`Parameter`s created.'.format(attr)
+                '`Parameter`s created.'.format(key)
             )
         except TypeError:
             # Iterator do not have a `len` but are allowed.
@@ -231,6 +225,13 @@ def parameters(names, **kwargs):
         finally:
             for param, value in zip(params, values):
                 setattr(param, key, value)
+
+    # Same check as in `Parameter`, which could not see the sequences.
+    for param in params:
+        if (param.min is not None and param.max is not None and
+                param.min > param.max and not param.fixed):
+            raise ValueError('The value of `min` should be less than or'
+                             ' equal to the value of `max`.')
     return params
 
 
-- 
2.43.0


From 2542a4f2e1cdb3f8e4f44bd0357deb2f7aa1c871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 19/44] fix: Jacobian of models with three or more layers of
 components crashed

sympy already applied part of the chain rule to functions of functions, which
left derivatives with respect to components in the result.
---
 symfit/core/models.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 8ed9ff4..aab126d 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1306,13 +1306,22 @@ def jacobian_from_model(model, as_functions=False):
     :return: :class:`~symfit.core.models.CallableModel` representing the Jacobian
         of ``model``.
     """
+    # Write every component as a function of independent variables and
+    # parameters only. Given nested functions, e.g. z(y(x, a), a), sympy would
+    # apply (part of) the chain rule itself.
+    key = lambda arg: [isinstance(arg, Parameter), str(arg)]
+    vars_as_functions = OrderedDict(
+        (var, func.func(*sorted(func.free_symbols, key=key)))
+        for var, func in model.vars_as_functions.items()
+    )
     # Inverse dict so we can turn functions back into vars in the end
-    functions_as_vars = dict((v, k) for k, v in model.vars_as_functions.items())
+    functions_as_vars = dict((v, k) for k, v in vars_as_functions.items())
     # Create the jacobian components. The `vars` here in the model_dict are
     # always of the type D(y, a), but the righthand-side might still contain
     # functions instead of vars depending on the value of `as_functions`.
     jac = {}
-    for func, expr in model.function_dict.items():
+    for var, func in vars_as_functions.items():
+        expr = model.model_dict[var].xreplace(vars_as_functions)
         for param in model.params:
             target = D(func, param)
             dfdp = expr.diff(param)
-- 
2.43.0


From 708c1fcd4e65888b53c614f8c2e20b6cfbc00eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 20/44] fix: Hessian of models containing absolute values could
 not be evaluated

---
 symfit/core/printing.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/symfit/core/printing.py b/symfit/core/printing.py
index 487284c..972c06b 100644
--- a/symfit/core/printing.py
+++ b/symfit/core/printing.py
@@ -11,7 +11,7 @@ slightly different behavior from the standard one.
 Users using both ``symfit`` and ``sympy`` should be aware of this.
 """
 import pkg_resources
-from sympy import HadamardProduct, MatPow, Idx, Inverse
+from sympy import HadamardProduct, MatPow, Idx, Inverse, DiracDelta
 from sympy.printing.codeprinter import CodePrinter
 
 ##########################################################
@@ -69,6 +69,15 @@ def _print_MatPow(self, printer):
         return printer._print_MatPow(self)
 MatPow._numpycode = _print_MatPow
 
+def _print_DiracDelta(self, printer):
+    """
+    Appears in the second derivative of e.g. ``Abs``. It is zero (almost)
+    everywhere.
+    """
+    return "%s(%s)" % (printer._module_format('numpy.zeros_like'),
+                       printer.doprint(self.args[0]))
+DiracDelta._numpycode = _print_DiracDelta
+
 #########################################################
 # End of monkeypatch                                    #
 #########################################################
\ No newline at end of file
-- 
2.43.0


From 517e02dc3749c17d5f0aff32ea98fc90ffff2bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 21/44] fix: derivatives of constant components broke for data
 shaped (n_params, 1)

The shape of the derivatives, including the parameter axes, was compared with
that of the data.
---
 symfit/core/objectives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index 71f0847..d930878 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -114,7 +114,7 @@ class BaseObjective(object, metaclass=abc.ABCMeta):
         for dep_var, component in zip(self.model.dependent_vars, model_output):
             dep_data = self.dependent_data.get(dep_var, None)
             if dep_data is not None:
-                if dep_data.shape == component.shape:
+                if dep_data.shape == component.shape[param_level:]:
                     shaped_result.append(component)
                 else:
                     # Add extra dimensions to the component if needed.
-- 
2.43.0


From 698fc6616474a487d8e088e4e60c723d1011d6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 22/44] fix: gradient of least squares failed for a mix of real
 and complex components

With TrustConstr and a model without Hessian, derivatives are estimated by
complex steps; in-place subtraction failed when an earlier component was real.
---
 symfit/core/objectives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index d930878..dd06209 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -349,7 +349,9 @@ class LeastSquares(HessianObjective):
                 sigma = self.sigma_data[sigma_var]
                 pre_sum = jac_comp * ((y - f) / sigma**2)[np.newaxis, ...]
                 axes = tuple(range(1, len(pre_sum.shape)))
-                result -= np.sum(pre_sum, axis=axes, keepdims=False)
+                # Not in place: components can be real or complex, the latter
+                # when the Hessian is estimated with complex steps.
+                result = result - np.sum(pre_sum, axis=axes, keepdims=False)
         return np.atleast_1d(np.squeeze(np.array(result)))
 
     def eval_hessian(self, ordered_parameters=[], **parameters):
-- 
2.43.0


From 7ecf7b130f6c44a2b5be3a5f7c8f27b873d9cbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 23/44] fix: TrustConstr and BasinHopping modified the options
 of the user

A dict of options could not be used for a second fit, as it would carry over
the method, derivatives, bounds and constraints of the first one.
---
 symfit/core/minimizers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 964b4f6..5e7f7c9 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -601,8 +601,8 @@ class TrustConstr(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMi
         return out
 
     def execute(self, *, jacobian=None, hessian=None, options=None, **minimize_options):
-        if options is None:
-            options = {}
+        # Do not modify the options of the user.
+        options = {} if options is None else dict(options)
         # Our Jacobians are dense, and apparently we need to explicitely
         # tell this.
         options['sparse_jacobian'] = False
@@ -722,8 +722,10 @@ class BasinHopping(ScipyMinimize, GlobalMinimizer):
             :func:`scipy.optimize.basinhopping`.
         :return: :class:`symfit.core.fit_results.FitResults`
         """
-        if 'minimizer_kwargs' not in minimize_options:
-            minimize_options['minimizer_kwargs'] = {}
+        # Work on a copy, so the options of the user are not modified.
+        minimize_options['minimizer_kwargs'] = dict(
+            minimize_options.get('minimizer_kwargs') or {}
+        )
 
         if 'method' not in minimize_options['minimizer_kwargs']:
             # If no minimizer was set by the user upon execute, use local_minimizer
-- 
2.43.0


From 2ca6cb99b3b5126dc07990cabb37be4529534347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 24/44] fix: TrustConstr crashed on scalar models without
 derivatives

It estimated the gradient by complex steps, but scipy compares the values of
the objective, which fails for complex numbers.
---
 symfit/core/minimizers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 5e7f7c9..312bec3 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -570,7 +570,9 @@ class TrustConstr(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMi
             jacobian = None
             hessian = 'cs'
         elif self.jacobian is None and self.hessian is None:
-            jacobian = 'cs'
+            # Not 'cs': scipy cannot compare the resulting complex values of
+            # the objective with each other.
+            jacobian = '3-point'
             hessian = soBFGS(exception_strategy='damp_update')
         else:
             jacobian = None
-- 
2.43.0


From 4a4c8675d0a22f32b09fb54f6e5156eba71b5409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 25/44] fix: minimizers mixed up parameters not given in
 alphabetical order

Objectives interpret the ordered parameters of a minimizer alphabetically,
but initial guesses, bounds and results used the order of the list given
to the minimizer.
---
 symfit/core/minimizers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 312bec3..9ae0dc7 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -32,6 +32,8 @@ class BaseMinimizer(object):
         :param objective: Objective function to be used.
         :param parameters: List of :class:`~symfit.core.argument.Parameter` instances
         """
+        # Objectives expect their ordered parameters alphabetically.
+        parameters = sorted(parameters, key=lambda p: p.name)
         self.parameters = parameters
         self._fixed_params = [p for p in parameters if p.fixed]
         self.objective = self._baseobjective_from_callable(objective)
-- 
2.43.0


From 0747d16eec829b34340377818c9427a695474394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 26/44] fix: minimizers used without Fit raised KeyError for Le
 constraints

---
 symfit/core/minimizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 9ae0dc7..771862b 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -487,10 +487,11 @@ class ScipyConstrainedMinimize(ScipyMinimize, ConstrainedMinimizer):
                 constraint_type = constraint.constraint_type
                 constraint = MinimizeModel(constraint, data=self.objective.data)
             elif isinstance(constraint, sympy.Rel):
-                constraint_type = constraint.__class__
                 constraint = self.objective.model.__class__.as_constraint(
                     constraint, self.objective.model
                 )
+                # Not the type of the Relational: Le is turned into Ge.
+                constraint_type = constraint.constraint_type
                 constraint = MinimizeModel(constraint, data=self.objective.data)
             else:
                 raise TypeError('Unknown type for a constraint.')
-- 
2.43.0


From 8f1357707bfffadf04238c51cd122555ceff4131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:45 +0000
Subject: [PATCH 27/44] fix: negated callable-based models could not be pickled

---
 symfit/core/models.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index aab126d..f06250d 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -536,6 +536,14 @@ class BaseModel(Mapping):
         self.__signature__ = self._make_signature()
 
 
+def _negated_call(*args, **kwargs):
+    """
+    :return: minus the value of the component ``args[0]`` for the remaining
+        arguments. At the module level so that negated callables can be pickled.
+    """
+    return - args[0](*args[1:], **kwargs)
+
+
 class BaseNumericalModel(BaseModel):
     """
     ABC for Numerical Models. These are models whose components are generic
@@ -624,7 +632,7 @@ class BaseNumericalModel(BaseModel):
         def negate(component):
             if isinstance(component, sympy.Basic):
                 return - component
-            return lambda *args, **kwargs: - component(*args, **kwargs)
+            return partial(_negated_call, component)
 
         new_model_dict = self.model_dict.copy()
         for var in self.dependent_vars:
-- 
2.43.0


From 10941983a9fd27eced63274025543e6fdd3f3713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:45 +0000
Subject: [PATCH 28/44] fix: unnamed symbols took the names of symbols restored
 from a pickle

---
 symfit/core/argument.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symfit/core/argument.py b/symfit/core/argument.py
index 2557b90..d2f6782 100644
--- a/symfit/core/argument.py
+++ b/symfit/core/argument.py
@@ -27,8 +27,6 @@ class Argument(Symbol):
         >> 'y'
     """
     __slots__ = ['_argument_index', '_argument_name']
-    # TODO: Make sure this also survives a pickle/unpickle to a fresh(!)
-    #       interpreter.
     _argument_indices = defaultdict(int)
 
     def __new__(cls, name=None, **assumptions):
@@ -65,11 +63,15 @@ class Argument(Symbol):
     def __setstate__(self, state):
         for key, value in state.items():
             setattr(self, key, value)
+        # Names generated from now on should not be those of restored symbols.
+        indices = self._argument_indices
+        indices[type(self)] = max(indices[type(self)], self._argument_index + 1)
 
     def __getstate__(self):
         state = super(Argument, self).__getstate__() or {}
         state.update({slot: getattr(self, slot) for slot in self.__slots__
                       if hasattr(self, slot)})
+        state['_argument_index'] = self._argument_index
         return state
 
     def _sympystr(self, printer, *args, **kwargs):
-- 
2.43.0


From aae8b1523cca8a06b1e6913a59ad53c9ac753d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:32 +0000
Subject: [PATCH 29/44] fix: parameters() failed for a sequence of names

---
 symfit/core/support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/support.py b/symfit/core/support.py
index f9f3341..003ad32 100644
--- a/symfit/core/support.py
+++ b/symfit/core/support.py
@@ -227,7 +227,7 @@ def parameters(names, **kwargs):
                 setattr(param, key, value)
 
     # Same check as in `Parameter`, which could not see the sequences.
-    for param in params:
+    for param in params if sequences else []:
         if (param.min is not None and param.max is not None and
                 param.min > param.max and not param.fixed):
             raise ValueError('The value of `min` should be less than or'
-- 
2.43.0


From 3239016214078bd1c63a0be23918a22791015b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:32 +0000
Subject: [PATCH 30/44] fix: the number zero was accepted as the name of a
 Parameter

---
 symfit/core/argument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/argument.py b/symfit/core/argument.py
index d2f6782..2a7a680 100644
--- a/symfit/core/argument.py
+++ b/symfit/core/argument.py
@@ -36,7 +36,7 @@ class Argument(Symbol):
         """
         assumptions['real'] = True
         # Generate a dummy name
-        if not name:
+        if name is None or name == '':
             # Throw a warning that is is better to explicitly give names.
             warnings.warn(
                 'It is recommended to provide names to {} explicitly'
-- 
2.43.0


From 3a88f869aa38a4a399825a46cc57732a752b03f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:44 +0000
Subject: [PATCH 31/44] fix: FitResults.covariance raised TypeError without a
 covariance matrix

---
 symfit/core/fit_results.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symfit/core/fit_results.py b/symfit/core/fit_results.py
index ad41ecb..d0520ee 100644
--- a/symfit/core/fit_results.py
+++ b/symfit/core/fit_results.py
@@ -151,7 +151,11 @@ class FitResults(object):
         """
         param_1_number = self.model.params.index(param_1)
         param_2_number = self.model.params.index(param_2)
-        return self.covariance_matrix[param_1_number, param_2_number]
+        try:
+            return self.covariance_matrix[param_1_number, param_2_number]
+        except TypeError:
+            # covariance_matrix can be None
+            return None
 
     @staticmethod
     def _array_safe_dict_eq(one_dict, other_dict):
-- 
2.43.0


From 6d30d1f7d05634a6d9ef900098bf53cfedbecd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 32/44] fix: scalar models with intermediate components were
 not minimized by default

---
 symfit/core/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/fit.py b/symfit/core/fit.py
index 47f8b97..eecdac6 100644
--- a/symfit/core/fit.py
+++ b/symfit/core/fit.py
@@ -470,7 +470,7 @@ class Fit(HasCovarianceMatrix):
                 # be considered separately and has its own non standard
                 # objective function.
                 objective = VectorLeastSquares
-            elif (len(model) == 1 and len(model.independent_vars) == 0 and
+            elif (len(model.dependent_vars) == 1 and len(model.independent_vars) == 0 and
                     model.dependent_vars[0].name not in bound_arguments.arguments):
                 objective = MinimizeModel
             else:
-- 
2.43.0


From c6edefbc4d0b3e18b080bf877c8c9dd1907d4e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 33/44] fix: interactive guess failed for components that are
 constant

---
 .../contrib/interactive_guess/interactive_guess.py   | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/symfit/contrib/interactive_guess/interactive_guess.py b/symfit/contrib/interactive_guess/interactive_guess.py
index 4118973..2e01f1d 100644
--- a/symfit/contrib/interactive_guess/interactive_guess.py
+++ b/symfit/contrib/interactive_guess/interactive_guess.py
@@ -252,8 +252,9 @@ class Strategy2D:
         Plots the model proposed for the projection proj on ax.
         """
         x, y = proj
-        y_vals = getattr(self.ig._eval_model(), y.name)
         x_vals = self.ig._x_points[x]
+        y_vals = np.broadcast_to(getattr(self.ig._eval_model(), y.name),
+                                 x_vals.shape)
         plot, = ax.plot(x_vals, y_vals, c='red')
         return plot
 
@@ -263,8 +264,9 @@ class Strategy2D:
         """
         evaluated_model = self.ig._eval_model()
         plot = self.ig._plots[(indep_var, dep_var)]
-        y_vals = getattr(evaluated_model, dep_var.name)
         x_vals = self.ig._x_points[indep_var]
+        y_vals = np.broadcast_to(getattr(evaluated_model, dep_var.name),
+                                 x_vals.shape)
         plot.set_data(x_vals, y_vals)
 
 
@@ -308,8 +310,9 @@ class StrategynD:
         """
         x, y = proj
         evaluated_model = self.ig._eval_model()
-        y_vals = getattr(evaluated_model, y.name)
         x_vals = self.ig._x_grid[x]
+        y_vals = np.broadcast_to(getattr(evaluated_model, y.name),
+                                 x_vals.shape)
         plot = ax.errorbar(x_vals, y_vals, xerr=0, yerr=0, c='red')
         return plot
 
@@ -318,8 +321,9 @@ class StrategynD:
         Updates the plot of the proposed model.
         """
         evaluated_model = self.ig._eval_model()
-        y_vals = getattr(evaluated_model, dep_var.name)
         x_vals = self.ig._x_grid[indep_var]
+        y_vals = np.broadcast_to(getattr(evaluated_model, dep_var.name),
+                                 x_vals.shape)
 
         x_plot_data = []
         y_plot_data = []
-- 
2.43.0


From ffacf7aa32cfa2cd7d85e61c351fd9395ff4a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:40 +0000
Subject: [PATCH 34/44] fix: models with more than 256 components were never
 equal

---
 symfit/core/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index f06250d..a41809e 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -291,7 +291,7 @@ class BaseModel(Mapping):
         :param other: Instance of ``Model``.
         :return: bool
         """
-        if len(self) is not len(other):
+        if len(self) != len(other):
             return False
         else:
             for var_1, var_2 in zip(self, other):
-- 
2.43.0


From 4659dc188149bfc2bd0cf0490c9a5d9cdeb43966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:50 +0000
Subject: [PATCH 35/44] fix: comparing objectives failed for missing data and
 ignored shapes and small differences

---
 symfit/core/objectives.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index dd06209..3a9ea29 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -162,11 +162,9 @@ class BaseObjective(object, metaclass=abc.ABCMeta):
             return False
         for key, value in self.data.items():
             try:
-                equal = np.allclose(other.data[key], value)
-            except TypeError:
-                equal = other.data[key] == value
-            except ValueError:  # Shapes cannot be broadcast together
-                equal = False
+                equal = np.array_equal(other.data[key], value, equal_nan=True)
+            except TypeError:  # Not numerical, e.g. None for missing data
+                equal = np.array_equal(other.data[key], value)
             if not equal:
                 return False
         return True
-- 
2.43.0


From da45e8dce3e8b7bfa4867f70e77207e8a32de864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:05 +0000
Subject: [PATCH 36/44] fix: fixed parameters kept the value they had when the
 objective was first evaluated

---
 symfit/core/objectives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index 3a9ea29..acc5ec6 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -128,7 +128,7 @@ class BaseObjective(object, metaclass=abc.ABCMeta):
                 shaped_result.append(component)
         return shaped_result
 
-    @cached_property
+    @property
     def _invariant_kwargs(self):
         """
         Prepares the invariant kwargs to ``self.model`` which are not provided
-- 
2.43.0


From 4ff22373a2d105daaeae55844a3c53a5792f2151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:54 +0000
Subject: [PATCH 37/44] fix: running a chain permanently replaced the initial
 guesses of its minimizers

---
 symfit/core/minimizers.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 771862b..6397d77 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -261,8 +261,17 @@ class ChainedMinimizer(BaseMinimizer):
         answers = []
         next_guess = self.initial_guesses
         for minimizer, kwargs in zip(self.minimizers, bound_arguments.arguments.values()):
+            # These guesses are for this run only: a minimizer provided by the
+            # user can be used on its own as well.
+            state = dict(vars(minimizer))
             minimizer.initial_guesses = next_guess
-            ans = minimizer.execute(**kwargs)
+            try:
+                ans = minimizer.execute(**kwargs)
+            finally:
+                if '_initial_guesses' in state:
+                    minimizer.initial_guesses = state['_initial_guesses']
+                else:
+                    del minimizer._initial_guesses
             # Fixed parameters are not part of the guesses
             next_guess = [ans.value(p) for p in minimizer.params]
             answers.append(ans)
-- 
2.43.0


From a2f91acc37e9018dd909538469165d1e0b82484a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:54 +0000
Subject: [PATCH 38/44] fix: element-wise products and powers of matrix
 expressions were printed without parentheses and with two factors only

---
 symfit/core/printing.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/symfit/core/printing.py b/symfit/core/printing.py
index 972c06b..856c743 100644
--- a/symfit/core/printing.py
+++ b/symfit/core/printing.py
@@ -41,8 +41,7 @@ def _print_Inverse(self, printer):
 Inverse._numpycode = _print_Inverse
 
 def _print_HadamardProduct(self, printer):
-    return "%s*%s" % (printer.doprint(self.args[0]),
-                      printer.doprint(self.args[1]))
+    return "*".join("(%s)" % printer.doprint(arg) for arg in self.args)
 HadamardProduct._numpycode = _print_HadamardProduct
 
 if pkg_resources.parse_version(pkg_resources.get_distribution('sympy').version) \
@@ -50,8 +49,8 @@ if pkg_resources.parse_version(pkg_resources.get_distribution('sympy').version)
     from sympy import HadamardPower
 
     def _print_HadamardPower(self, printer):
-        return "%s**%s" % (printer.doprint(self.args[0]),
-                          printer.doprint(self.args[1]))
+        return "(%s)**(%s)" % (printer.doprint(self.args[0]),
+                              printer.doprint(self.args[1]))
     HadamardPower._numpycode = _print_HadamardPower
 
 def _print_Idx(self, printer):
-- 
2.43.0


From 1dbef0feb68b2bfae9ad75e7f3aaf98f3c6738e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:41 +0000
Subject: [PATCH 39/44] fix: R^2 failed or was wrong for data with more
 dimensions than its component

---
 symfit/core/fit_results.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/symfit/core/fit_results.py b/symfit/core/fit_results.py
index d0520ee..8a9dd4e 100644
--- a/symfit/core/fit_results.py
+++ b/symfit/core/fit_results.py
@@ -278,6 +278,10 @@ def r_squared(model, fit_result, data):
     f_is = model(*x_is, **fit_result.params)._asdict()
     # f_is also contains the evaluated interdependent_vars, skip those.
     f_is = [f_is[var] for var in model.dependent_vars]
+    # The data can have more dimensions than its component. As in the objectives,
+    # those come last.
+    f_is = [np.reshape(f_i, np.shape(f_i) + (1,) * (np.ndim(y_i) - np.ndim(f_i)))
+            for y_i, f_i in zip(y_is, f_is)]
     SS_res = np.sum([np.sum((y_i - f_i)**2) for y_i, f_i in zip(y_is, f_is) if y_i is not None])
     SS_tot = np.sum([np.sum((y_i - y_bar)**2) for y_i, y_bar in zip(y_is, y_bars) if y_i is not None])
     return 1 - SS_res/SS_tot
\ No newline at end of file
-- 
2.43.0


From 0d9b5a4e841459015ecb33612c35db373c62d85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:31 +0000
Subject: [PATCH 40/44] fix: interactive guess failed for data of low density
 everywhere

The logarithm of the density was shown from -7 upwards, which is no valid
range if the density is below that everywhere, e.g. because of the units of
the data.
---
 symfit/contrib/interactive_guess/interactive_guess.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symfit/contrib/interactive_guess/interactive_guess.py b/symfit/contrib/interactive_guess/interactive_guess.py
index 2e01f1d..46a80e9 100644
--- a/symfit/contrib/interactive_guess/interactive_guess.py
+++ b/symfit/contrib/interactive_guess/interactive_guess.py
@@ -299,6 +299,9 @@ class StrategynD:
         if self.ig.log_contour:
             contour_grid = np.log(contour_grid)
             vmin = -7
+            if np.max(contour_grid) <= vmin:
+                # Low everywhere, because of the units of the data.
+                vmin += np.max(contour_grid)
         else:
             vmin = None
         ax.contourf(xx, yy, contour_grid.reshape(xx.shape),
-- 
2.43.0


From 286e85d872b8064a060f29eec02fbbe7335bad3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:41 +0000
Subject: [PATCH 41/44] fix: a constraint given as a matrix with one element
 can be used by all minimizers

---
 symfit/core/objectives.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index acc5ec6..471552f 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -538,7 +538,11 @@ class MinimizeModel(HessianObjective, BaseIndependentObjective):
         evaluated_func = super(MinimizeModel, self).__call__(
             ordered_parameters, **parameters
         )
-        return evaluated_func[0]
+        value = evaluated_func[0]
+        # A matrix with a single element is a scalar too.
+        if np.ndim(value) > 1 and np.size(value) == 1:
+            value = np.reshape(value, (1,))
+        return value
 
     def eval_jacobian(self, ordered_parameters=[], **parameters):
         if hasattr(self.model, 'eval_jacobian'):
-- 
2.43.0


From 27086259170200b30b569f88fe821f1b6bd6f5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:41 +0000
Subject: [PATCH 42/44] fix: with_dependencies no longer modifies the
 connectivity_mapping of the user

---
 symfit/core/models.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index a41809e..661a6ae 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -235,8 +235,13 @@ class BaseModel(Mapping):
             # so we need to work those components into the model_dict.
             model_dict = model.model_dict.copy()
             # This is the case for BaseNumericalModel's
-            connectivity_mapping = init_kwargs.get('connectivity_mapping',
-                                                   model.connectivity_mapping)
+            connectivity_mapping = dict(
+                init_kwargs.get('connectivity_mapping',
+                                model.connectivity_mapping)
+            )
+            if 'connectivity_mapping' in init_kwargs:
+                # Do not modify the object of the user.
+                init_kwargs['connectivity_mapping'] = connectivity_mapping
             for var in model.independent_vars:
                 if var in dependency_model:
                     # Add this var and all its dependencies.
@@ -252,9 +257,8 @@ class BaseModel(Mapping):
                         if symbol == var:
                             break
             # connectivity_mapping in init_kwargs has been updated if it was
-            # present, since python is pass by reference. If it wasn't present,
-            # we are dealing with a type of model that will build its own
-            # connectivity_mapping upon init.
+            # present. If it wasn't present, we are dealing with a type of model
+            # that will build its own connectivity_mapping upon init.
             model = cls(model_dict, **init_kwargs)
         return model
 
-- 
2.43.0


From ab1e1bfec1a14f317faac4f5c10771766d2e0d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:41 +0000
Subject: [PATCH 43/44] fix: data_shapes accepts independent data given as a
 single number

---
 symfit/core/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/fit.py b/symfit/core/fit.py
index eecdac6..8c73bac 100644
--- a/symfit/core/fit.py
+++ b/symfit/core/fit.py
@@ -203,7 +203,7 @@ class TakesData(object):
         independent_shapes = []
         for var, data in self.independent_data.items():
             if data is not None:
-                independent_shapes.append(data.shape)
+                independent_shapes.append(np.shape(data))
 
         dependent_shapes = []
         for var, data in self.dependent_data.items():
-- 
2.43.0


From 1a14f5be4f2129ac655cce9fadf3e439b8b26ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:41 +0000
Subject: [PATCH 44/44] fix: dependent data given as a single number is a data
 set of one point

---
 symfit/core/fit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/symfit/core/fit.py b/symfit/core/fit.py
index 8c73bac..3d1fe36 100644
--- a/symfit/core/fit.py
+++ b/symfit/core/fit.py
@@ -88,6 +88,10 @@ class TakesData(object):
             except TypeError:
                 if dataset is not None:
                     self.data[var] = np.array(dataset)
+        # A single number is a data set of one point.
+        for var, dataset in self.dependent_data.items():
+            if dataset is not None and np.ndim(dataset) == 0:
+                self.data[var] = np.atleast_1d(dataset)
         self.sigmas_provided = any(value is not None for value in self.sigma_data.values())
 
         # Replace sigmas that are constant by an array of that constant
-- 
2.43.0

