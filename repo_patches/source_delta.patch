From 7211e73e4c3e87a752bc3226f041331edd5c3e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 01/22] fix: (GJR)GARCH starting values keep the grid point
 with the highest loglikelihood

---
 src/frds/algorithms/_garch.py | 1050 +++++++++++++++++----------------
 1 file changed, 527 insertions(+), 523 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 9857305..f4ec4d3 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -1,523 +1,527 @@
-import warnings
-import itertools
-from typing import List
-from dataclasses import dataclass
-import numpy as np
-from scipy.optimize import minimize, OptimizeResult
-
-USE_CPP_EXTENSION = True
-try:
-    import frds.algorithms.utils.utils_ext as ext
-except ImportError:
-    USE_CPP_EXTENSION = False
-
-
-class GARCHModel:
-    """:doc:`/algorithms/garch` model with constant mean and Normal noise
-
-    It estimates the model parameters only. No standard errors calculated.
-
-    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
-    Modifications are made for easier understaing of the code flow.
-    """
-
-    @dataclass
-    class Parameters:
-        mu: float = np.nan
-        omega: float = np.nan
-        alpha: float = np.nan
-        beta: float = np.nan
-        loglikelihood: float = np.nan
-
-    def __init__(self, returns: np.ndarray, zero_mean=False) -> None:
-        """__init__
-
-        Args:
-            returns (np.ndarray): ``(T,)`` array of ``T`` returns
-            zero_mean (bool): whether to use a zero mean returns model. Default to False.
-
-        .. note:: ``returns`` is best to be percentage returns for optimization
-        """
-        self.returns = np.asarray(returns, dtype=np.float64)
-        self.estimation_success = False
-        self.loglikelihood_final = np.nan
-        self.parameters = type(self).Parameters()
-        self.resids = np.empty_like(self.returns)
-        self.sigma2 = np.empty_like(self.returns)
-        self.backcast_value = np.nan
-        self.var_bounds: np.ndarray = None
-        self.zero_mean = zero_mean
-
-    def fit(self) -> Parameters:
-        """Estimates the GARCH(1,1) parameters via MLE
-
-        Returns:
-            params: :class:`frds.algorithms.GARCHModel.Parameters`
-        """
-        # No repeated estimation?
-        if self.estimation_success:
-            return
-
-        starting_vals = self.preparation()
-
-        # Set bounds for parameters
-        bounds = [
-            (-np.inf, np.inf),  # No bounds for mu
-            (1e-6, np.inf),  # Lower bound for omega
-            (0.0, 1.0),  # Bounds for alpha
-            (0.0, 1.0),  # Boudns for beta
-        ]
-        if self.zero_mean:
-            bounds = bounds[1:]
-
-        # Set constraint for stationarity
-        def persistence_smaller_than_one(params: List[float]):
-            alpha, beta = params[-2:]
-            return 1.0 - (alpha + beta)
-
-        # MLE via minimizing the negative log-likelihood
-        # fmt: off
-        with warnings.catch_warnings():
-            warnings.filterwarnings(
-                "ignore",
-                "Values in x were outside bounds during a minimize step",
-                RuntimeWarning,
-            )
-            opt: OptimizeResult = minimize(
-                self.loglikelihood_model,
-                starting_vals,
-                args=(self.backcast_value, self.var_bounds, self.zero_mean),
-                method="SLSQP",
-                bounds=bounds,
-                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
-            )
-            if opt.success:
-                self.estimation_success = True
-                if self.zero_mean:
-                    self.parameters = type(self).Parameters(0.0, *list(opt.x), loglikelihood=-opt.fun)
-                else:
-                    self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
-                self.resids = self.returns - self.parameters.mu
-
-        return self.parameters
-
-    def preparation(self) -> List[float]:
-        """Prepare starting values.
-
-        Returns:
-            List[float]: list of starting values
-        """
-        # Compute a starting value for volatility process by backcasting
-        if self.zero_mean:
-            resids = self.returns
-        else:
-            resids = self.returns - np.mean(self.returns)
-        self.backcast_value = self.backcast(resids)
-        # Compute a loose bound for the volatility process
-        # This is to avoid NaN in MLE by avoiding zero/negative variance,
-        # as well as unreasonably large variance.
-        self.var_bounds = self.variance_bounds(resids)
-        # Compute the starting values for MLE
-        # Starting values for the volatility process
-        var_params = self.starting_values(resids)
-        # Starting value for mu is the sample mean return
-        initial_mu = self.returns.mean()
-        # Starting values are [mu, omega, alpha, beta]
-        starting_vals = [initial_mu, *var_params]
-
-        return starting_vals if not self.zero_mean else var_params
-
-    def loglikelihood_model(
-        self,
-        params: np.ndarray,
-        backcast: float,
-        var_bounds: np.ndarray,
-        zero_mean=False,
-    ) -> float:
-        """Calculates the negative log-likelihood based on the current ``params``.
-        This function is used in optimization.
-
-        Args:
-            params (np.ndarray): [mu, omega, alpha, (gamma), beta]
-            backcast (float): backcast value
-            var_bounds (np.ndarray): variance bounds
-
-        Returns:
-            float: negative log-likelihood
-        """
-        if zero_mean:
-            resids = self.returns
-            self.sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
-        else:
-            resids = self.returns - params[0]  # params[0] is mu
-            self.sigma2 = self.compute_variance(
-                params[1:], resids, backcast, var_bounds
-            )
-        return -self.loglikelihood(resids, self.sigma2)
-
-    @staticmethod
-    def loglikelihood(resids: np.ndarray, sigma2: np.ndarray) -> float:
-        """Computes the log-likelihood assuming residuals are
-        normally distributed conditional on the variance.
-
-        Args:
-            resids (np.ndarray): residuals to use in computing log-likelihood.
-            sigma2 (np.ndarray): conditional variance of residuals.
-
-        Returns:
-            float: log-likelihood
-        """
-        l = -0.5 * (np.log(2 * np.pi) + np.log(sigma2) + resids**2.0 / sigma2)
-        return np.sum(l)
-
-    @staticmethod
-    def compute_variance(
-        params: List[float],
-        resids: np.ndarray,
-        backcast: float,
-        var_bounds: np.ndarray,
-    ) -> np.ndarray:
-        """Computes the variances conditional on given parameters
-
-        Args:
-            params (List[float]): [omega, alpha, beta]
-            resids (np.ndarray): residuals from mean equation
-            backcast (float): backcast value
-            var_bounds (np.ndarray): variance bounds
-
-        Returns:
-            np.ndarray: conditional variance
-        """
-        if USE_CPP_EXTENSION:
-            return ext.compute_garch_variance(params, resids, backcast, var_bounds)
-        omega, alpha, beta = params
-        sigma2 = np.zeros_like(resids)
-        sigma2[0] = omega + (alpha + beta) * backcast
-        for t in range(1, len(resids)):
-            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
-            sigma2[t] = GARCHModel.bounds_check(sigma2[t], var_bounds[t])
-        return sigma2
-
-    def starting_values(self, resids: np.ndarray) -> List[float]:
-        """Finds the optimal initial values for the volatility model via a grid
-        search. For varying target persistence and alpha values, return the
-        combination of alpha and beta that gives the highest loglikelihood.
-
-        Args:
-            resids (np.ndarray): residuals from the mean model
-
-        Returns:
-            List[float]: [omega, alpha, beta]
-        """
-        # Candidate target persistence - we don't have a prior knowledge here
-        persistence_grid = [0.5, 0.7, 0.9, 0.98]
-        # Candidate alpha values
-        alpha_grid = [0.01, 0.05, 0.1, 0.2]
-        # Sample variance
-        var = self.returns.var()
-        # Backcast initial value for the volaility process
-        initial_params = []
-        max_likelihood = -np.inf
-        for alpha, p in itertools.product(*[alpha_grid, persistence_grid]):
-            # Note that (alpha+beta) is the "persistence"
-            beta = p - alpha
-            # Note that the unconditional variance is omega/(1-persistence).
-            # As we are guessing the initial value, we use the sample variance
-            # as the unconditional variance to guess the omega value.
-            omega = var * (1 - p)
-            params = [omega, alpha, beta]
-            sigma2 = self.compute_variance(
-                params, resids, self.backcast_value, self.var_bounds
-            )
-            if -self.loglikelihood(resids, sigma2) > max_likelihood:
-                initial_params = params
-        return initial_params
-
-    @staticmethod
-    def variance_bounds(resids: np.ndarray) -> np.ndarray:
-        """Compute bounds for conditional variances using EWMA.
-
-        This function calculates the lower and upper bounds for conditional variances
-        based on the residuals provided. The bounds are computed to ensure numerical
-        stability during the parameter estimation process of GARCH models. The function
-        uses Exponentially Weighted Moving Average (EWMA) to estimate the initial variance
-        and then adjusts these estimates to lie within global bounds.
-
-        Args:
-            resids (np.ndarray): residuals from the mean model.
-
-        Returns:
-            np.ndarray: an array where each row contains the lower and upper bounds for the conditional variance at each time point.
-        """
-
-        T = len(resids)
-        tau = min(75, T)
-        # Compute initial variance using EWMA
-        decay_factor = 0.94
-        weights = decay_factor ** np.arange(tau)
-        weights /= weights.sum()
-        initial_variance = np.dot(weights, resids[:tau] ** 2)
-        # Compute var_bound using EWMA (assuming ewma_recursion is defined)
-        var_bound = GARCHModel.ewma(resids, initial_variance)
-        # Compute global bounds
-        global_lower_bound = resids.var() / 1e8
-        global_upper_bound = 1e7 * (1 + (resids**2).max())
-        # Adjust var_bound to ensure it lies within global bounds
-        var_bound = np.clip(var_bound, global_lower_bound, global_upper_bound)
-        # Create bounds matrix
-        var_bounds = np.vstack((var_bound / 1e6, var_bound * 1e6)).T
-
-        return np.ascontiguousarray(var_bounds)
-
-    @staticmethod
-    def bounds_check(sigma2: float, var_bounds: np.ndarray) -> float:
-        """Adjust the conditional variance at time t based on its bounds
-
-        Args:
-            sigma2 (float): conditional variance
-            var_bounds (np.ndarray): lower and upper bounds
-
-        Returns:
-            float: adjusted conditional variance
-        """
-        if USE_CPP_EXTENSION:
-            return ext.bounds_check(sigma2, var_bounds)
-        lower, upper = var_bounds[0], var_bounds[1]
-        sigma2 = max(lower, sigma2)
-        if sigma2 > upper:
-            if not np.isinf(sigma2):
-                sigma2 = upper + np.log(sigma2 / upper)
-            else:
-                sigma2 = upper + 1000
-        return sigma2
-
-    @staticmethod
-    def backcast(resids: np.ndarray) -> float:
-        """Computes the starting value for estimating conditional variance.
-
-        Args:
-            resids (np.ndarray): residuals
-
-        Returns:
-            float: initial value from backcasting
-        """
-        # Limit to first tau observations to reduce computation
-        tau = min(75, resids.shape[0])
-        # Weights for Exponential Weighted Moving Average (EWMA)
-        w = 0.94 ** np.arange(tau)
-        w = w / sum(w)  # Ensure weights add up to 1
-        # Let the initial value to be the EWMA of first tau observations
-        return float(np.sum((resids[:tau] ** 2) * w))
-
-    @staticmethod
-    def ewma(resids: np.ndarray, initial_value: float, lam=0.94) -> np.ndarray:
-        """Compute the conditional variance estimates using
-        Exponentially Weighted Moving Average (EWMA).
-
-        Args:
-            resids (np.ndarray): Residuals from the model.
-            initial_value (float): Initial value for the conditional variance.
-            lam (float): Decay factor for the EWMA.
-
-        Returns:
-            np.ndarray: Array containing the conditional variance estimates.
-        """
-        if USE_CPP_EXTENSION:
-            return ext.ewma(resids, initial_value, lam)
-        T = len(resids)
-        variance = np.empty(T)
-        variance[0] = initial_value  # Set the initial value
-        # Compute the squared residuals
-        squared_resids = resids**2
-        # Compute the EWMA using the decay factors and squared residuals
-        for t in range(1, T):
-            variance[t] = lam * variance[t - 1] + (1 - lam) * squared_resids[t - 1]
-        return variance
-
-
-class GJRGARCHModel(GARCHModel):
-    """:doc:`/algorithms/gjr-garch` model with constant mean and Normal noise
-
-    It estimates the model parameters only. No standard errors calculated.
-
-    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
-    Modifications are made for easier understaing of the code flow.
-    """
-
-    @dataclass
-    class Parameters:
-        mu: float = np.nan
-        omega: float = np.nan
-        alpha: float = np.nan
-        gamma: float = np.nan
-        beta: float = np.nan
-        loglikelihood: float = np.nan
-
-    def fit(self) -> Parameters:
-        """Estimates the GJR-GARCH(1,1) parameters via MLE
-
-        Returns:
-            List[float]: [mu, omega, alpha, gamma, beta, loglikelihood]
-        """
-        starting_vals = self.preparation()
-
-        bounds = [
-            (-np.inf, np.inf),  # No bounds for mu
-            (1e-6, np.inf),  # Lower bound for omega
-            (1e-6, 1.0),  # Bounds for alpha
-            (1e-6, 1.0),  # Bounds for gamma
-            (1e-6, 1.0),  # Boudns for beta
-        ]
-        if self.zero_mean:
-            bounds = bounds[1:]
-
-        # Set constraint for stationarity
-        def persistence_smaller_than_one(params: List[float]):
-            alpha, gamma, beta = params[-3:]
-            return 1.0 - (alpha + beta + gamma / 2)
-
-        # MLE via minimizing the negative log-likelihood
-        with warnings.catch_warnings():
-            warnings.filterwarnings(
-                "ignore",
-                "Values in x were outside bounds during a minimize step",
-                RuntimeWarning,
-            )
-            opt: OptimizeResult = minimize(
-                self.loglikelihood_model,
-                starting_vals,
-                args=(self.backcast_value, self.var_bounds, self.zero_mean),
-                method="SLSQP",
-                bounds=bounds,
-                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
-            )
-            if opt.success:
-                self.estimation_success = True
-                if self.zero_mean:
-                    self.parameters = type(self).Parameters(
-                        0.0, *list(opt.x), loglikelihood=-opt.fun
-                    )
-                else:
-                    self.parameters = type(self).Parameters(
-                        *list(opt.x), loglikelihood=-opt.fun
-                    )
-                self.resids = self.returns - self.parameters.mu
-
-        return self.parameters
-
-    @staticmethod
-    def compute_variance(
-        params: List[float],
-        resids: np.ndarray,
-        backcast: float,
-        var_bounds: np.ndarray,
-    ) -> np.ndarray:
-        """Computes the variances conditional on given parameters
-
-        Args:
-            params (List[float]): [omega, alpha, gamma, beta]
-            resids (np.ndarray): residuals from mean equation
-            backcast (float): backcast value
-            var_bounds (np.ndarray): variance bounds
-
-        Returns:
-            np.ndarray: conditional variance
-        """
-        if USE_CPP_EXTENSION:
-            return ext.compute_gjrgarch_variance(params, resids, backcast, var_bounds)
-        # fmt: off
-        omega, alpha, gamma, beta = params
-        sigma2 = np.zeros_like(resids)
-        sigma2[0] = omega + (alpha + gamma/2 + beta) * backcast
-        for t in range(1, len(resids)):
-            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
-            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
-            sigma2[t] = GJRGARCHModel.bounds_check(sigma2[t], var_bounds[t])
-        return sigma2
-
-    @staticmethod
-    def forecast_variance(
-        params: Parameters,
-        resids: np.ndarray,
-        initial_variance: float,
-    ) -> np.ndarray:
-        """Forecast the variances conditional on given parameters and residuals.
-
-        Args:
-            params (Parameters): :class:`frds.algorithms.GJRGARCHModel.Parameters`
-            resids (np.ndarray): residuals to use
-            initial_variance (float): starting value of variance forecasts
-
-        Returns:
-            np.ndarray: conditional variance
-        """
-        # fmt: off
-        omega, alpha, gamma, beta = params.omega, params.alpha, params.gamma, params.beta
-        sigma2 = np.zeros_like(resids)
-        sigma2[0] = initial_variance
-        for t in range(1, len(resids)):
-            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
-            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
-        return sigma2[1:]
-
-    def starting_values(self, resids: np.ndarray) -> List[float]:
-        """Finds the optimal initial values for the volatility model via a grid
-        search. For varying target persistence and alpha values, return the
-        combination of alpha and beta that gives the highest loglikelihood.
-
-        Args:
-            resids (np.ndarray): residuals from the mean model
-
-        Returns:
-            List[float]: [omega, alpha, gamma, beta]
-        """
-        # Candidate target persistence - we don't have a prior knowledge here
-        persistence_grid = [0.5, 0.7, 0.9, 0.98]
-        # Candidate alpha values
-        alpha_grid = [0.01, 0.05, 0.1, 0.2]
-        gamma_grid = alpha_grid
-        # Sample variance
-        var = self.returns.var()
-        # Backcast initial value for the volaility process
-        var_bounds = self.variance_bounds(resids)
-        backcast = self.backcast(resids)
-        initial_params = []
-        max_likelihood = -np.inf
-        # fmt: off
-        for alpha, gamma, p in itertools.product(*[alpha_grid, gamma_grid, persistence_grid]):
-            # Note that (alpha+beta) is the "persistence"
-            beta = p - alpha - gamma/2
-            # Note that the unconditional variance is omega/(1-persistence).
-            # As we are guessing the initial value, we use the sample variance
-            # as the unconditional variance to guess the omega value.
-            omega = var * (1 - p)
-            params = [omega, alpha, gamma, beta]
-            sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
-            if -self.loglikelihood(resids, sigma2) > max_likelihood:
-                initial_params = params
-        return initial_params
-
-
-if __name__ == "__main__":
-    import pandas as pd
-    from pprint import pprint
-
-    df = pd.read_stata(
-        "https://www.stata-press.com/data/r18/stocks.dta", convert_dates=["date"]
-    )
-    df.set_index("date", inplace=True)
-    # Scale returns to percentage returns for better optimization results
-    returns = df["nissan"].to_numpy() * 100
-
-    g = GARCHModel(returns)
-    res = g.fit()
-    pprint(res)
-
-    gjr = GJRGARCHModel(returns)
-    res = gjr.fit()
-    pprint(res)
-
-    from arch import arch_model
-
-    m = arch_model(returns, p=1, o=1, q=1)
-    print(m.fit(disp=False))
+import warnings
+import itertools
+from typing import List
+from dataclasses import dataclass
+import numpy as np
+from scipy.optimize import minimize, OptimizeResult
+
+USE_CPP_EXTENSION = True
+try:
+    import frds.algorithms.utils.utils_ext as ext
+except ImportError:
+    USE_CPP_EXTENSION = False
+
+
+class GARCHModel:
+    """:doc:`/algorithms/garch` model with constant mean and Normal noise
+
+    It estimates the model parameters only. No standard errors calculated.
+
+    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
+    Modifications are made for easier understaing of the code flow.
+    """
+
+    @dataclass
+    class Parameters:
+        mu: float = np.nan
+        omega: float = np.nan
+        alpha: float = np.nan
+        beta: float = np.nan
+        loglikelihood: float = np.nan
+
+    def __init__(self, returns: np.ndarray, zero_mean=False) -> None:
+        """__init__
+
+        Args:
+            returns (np.ndarray): ``(T,)`` array of ``T`` returns
+            zero_mean (bool): whether to use a zero mean returns model. Default to False.
+
+        .. note:: ``returns`` is best to be percentage returns for optimization
+        """
+        self.returns = np.asarray(returns, dtype=np.float64)
+        self.estimation_success = False
+        self.loglikelihood_final = np.nan
+        self.parameters = type(self).Parameters()
+        self.resids = np.empty_like(self.returns)
+        self.sigma2 = np.empty_like(self.returns)
+        self.backcast_value = np.nan
+        self.var_bounds: np.ndarray = None
+        self.zero_mean = zero_mean
+
+    def fit(self) -> Parameters:
+        """Estimates the GARCH(1,1) parameters via MLE
+
+        Returns:
+            params: :class:`frds.algorithms.GARCHModel.Parameters`
+        """
+        # No repeated estimation?
+        if self.estimation_success:
+            return
+
+        starting_vals = self.preparation()
+
+        # Set bounds for parameters
+        bounds = [
+            (-np.inf, np.inf),  # No bounds for mu
+            (1e-6, np.inf),  # Lower bound for omega
+            (0.0, 1.0),  # Bounds for alpha
+            (0.0, 1.0),  # Boudns for beta
+        ]
+        if self.zero_mean:
+            bounds = bounds[1:]
+
+        # Set constraint for stationarity
+        def persistence_smaller_than_one(params: List[float]):
+            alpha, beta = params[-2:]
+            return 1.0 - (alpha + beta)
+
+        # MLE via minimizing the negative log-likelihood
+        # fmt: off
+        with warnings.catch_warnings():
+            warnings.filterwarnings(
+                "ignore",
+                "Values in x were outside bounds during a minimize step",
+                RuntimeWarning,
+            )
+            opt: OptimizeResult = minimize(
+                self.loglikelihood_model,
+                starting_vals,
+                args=(self.backcast_value, self.var_bounds, self.zero_mean),
+                method="SLSQP",
+                bounds=bounds,
+                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
+            )
+            if opt.success:
+                self.estimation_success = True
+                if self.zero_mean:
+                    self.parameters = type(self).Parameters(0.0, *list(opt.x), loglikelihood=-opt.fun)
+                else:
+                    self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
+                self.resids = self.returns - self.parameters.mu
+
+        return self.parameters
+
+    def preparation(self) -> List[float]:
+        """Prepare starting values.
+
+        Returns:
+            List[float]: list of starting values
+        """
+        # Compute a starting value for volatility process by backcasting
+        if self.zero_mean:
+            resids = self.returns
+        else:
+            resids = self.returns - np.mean(self.returns)
+        self.backcast_value = self.backcast(resids)
+        # Compute a loose bound for the volatility process
+        # This is to avoid NaN in MLE by avoiding zero/negative variance,
+        # as well as unreasonably large variance.
+        self.var_bounds = self.variance_bounds(resids)
+        # Compute the starting values for MLE
+        # Starting values for the volatility process
+        var_params = self.starting_values(resids)
+        # Starting value for mu is the sample mean return
+        initial_mu = self.returns.mean()
+        # Starting values are [mu, omega, alpha, beta]
+        starting_vals = [initial_mu, *var_params]
+
+        return starting_vals if not self.zero_mean else var_params
+
+    def loglikelihood_model(
+        self,
+        params: np.ndarray,
+        backcast: float,
+        var_bounds: np.ndarray,
+        zero_mean=False,
+    ) -> float:
+        """Calculates the negative log-likelihood based on the current ``params``.
+        This function is used in optimization.
+
+        Args:
+            params (np.ndarray): [mu, omega, alpha, (gamma), beta]
+            backcast (float): backcast value
+            var_bounds (np.ndarray): variance bounds
+
+        Returns:
+            float: negative log-likelihood
+        """
+        if zero_mean:
+            resids = self.returns
+            self.sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
+        else:
+            resids = self.returns - params[0]  # params[0] is mu
+            self.sigma2 = self.compute_variance(
+                params[1:], resids, backcast, var_bounds
+            )
+        return -self.loglikelihood(resids, self.sigma2)
+
+    @staticmethod
+    def loglikelihood(resids: np.ndarray, sigma2: np.ndarray) -> float:
+        """Computes the log-likelihood assuming residuals are
+        normally distributed conditional on the variance.
+
+        Args:
+            resids (np.ndarray): residuals to use in computing log-likelihood.
+            sigma2 (np.ndarray): conditional variance of residuals.
+
+        Returns:
+            float: log-likelihood
+        """
+        l = -0.5 * (np.log(2 * np.pi) + np.log(sigma2) + resids**2.0 / sigma2)
+        return np.sum(l)
+
+    @staticmethod
+    def compute_variance(
+        params: List[float],
+        resids: np.ndarray,
+        backcast: float,
+        var_bounds: np.ndarray,
+    ) -> np.ndarray:
+        """Computes the variances conditional on given parameters
+
+        Args:
+            params (List[float]): [omega, alpha, beta]
+            resids (np.ndarray): residuals from mean equation
+            backcast (float): backcast value
+            var_bounds (np.ndarray): variance bounds
+
+        Returns:
+            np.ndarray: conditional variance
+        """
+        if USE_CPP_EXTENSION:
+            return ext.compute_garch_variance(params, resids, backcast, var_bounds)
+        omega, alpha, beta = params
+        sigma2 = np.zeros_like(resids)
+        sigma2[0] = omega + (alpha + beta) * backcast
+        for t in range(1, len(resids)):
+            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
+            sigma2[t] = GARCHModel.bounds_check(sigma2[t], var_bounds[t])
+        return sigma2
+
+    def starting_values(self, resids: np.ndarray) -> List[float]:
+        """Finds the optimal initial values for the volatility model via a grid
+        search. For varying target persistence and alpha values, return the
+        combination of alpha and beta that gives the highest loglikelihood.
+
+        Args:
+            resids (np.ndarray): residuals from the mean model
+
+        Returns:
+            List[float]: [omega, alpha, beta]
+        """
+        # Candidate target persistence - we don't have a prior knowledge here
+        persistence_grid = [0.5, 0.7, 0.9, 0.98]
+        # Candidate alpha values
+        alpha_grid = [0.01, 0.05, 0.1, 0.2]
+        # Sample variance
+        var = self.returns.var()
+        # Backcast initial value for the volaility process
+        initial_params = []
+        max_likelihood = -np.inf
+        for alpha, p in itertools.product(*[alpha_grid, persistence_grid]):
+            # Note that (alpha+beta) is the "persistence"
+            beta = p - alpha
+            # Note that the unconditional variance is omega/(1-persistence).
+            # As we are guessing the initial value, we use the sample variance
+            # as the unconditional variance to guess the omega value.
+            omega = var * (1 - p)
+            params = [omega, alpha, beta]
+            sigma2 = self.compute_variance(
+                params, resids, self.backcast_value, self.var_bounds
+            )
+            likelihood = self.loglikelihood(resids, sigma2)
+            if likelihood > max_likelihood:
+                max_likelihood = likelihood
+                initial_params = params
+        return initial_params
+
+    @staticmethod
+    def variance_bounds(resids: np.ndarray) -> np.ndarray:
+        """Compute bounds for conditional variances using EWMA.
+
+        This function calculates the lower and upper bounds for conditional variances
+        based on the residuals provided. The bounds are computed to ensure numerical
+        stability during the parameter estimation process of GARCH models. The function
+        uses Exponentially Weighted Moving Average (EWMA) to estimate the initial variance
+        and then adjusts these estimates to lie within global bounds.
+
+        Args:
+            resids (np.ndarray): residuals from the mean model.
+
+        Returns:
+            np.ndarray: an array where each row contains the lower and upper bounds for the conditional variance at each time point.
+        """
+
+        T = len(resids)
+        tau = min(75, T)
+        # Compute initial variance using EWMA
+        decay_factor = 0.94
+        weights = decay_factor ** np.arange(tau)
+        weights /= weights.sum()
+        initial_variance = np.dot(weights, resids[:tau] ** 2)
+        # Compute var_bound using EWMA (assuming ewma_recursion is defined)
+        var_bound = GARCHModel.ewma(resids, initial_variance)
+        # Compute global bounds
+        global_lower_bound = resids.var() / 1e8
+        global_upper_bound = 1e7 * (1 + (resids**2).max())
+        # Adjust var_bound to ensure it lies within global bounds
+        var_bound = np.clip(var_bound, global_lower_bound, global_upper_bound)
+        # Create bounds matrix
+        var_bounds = np.vstack((var_bound / 1e6, var_bound * 1e6)).T
+
+        return np.ascontiguousarray(var_bounds)
+
+    @staticmethod
+    def bounds_check(sigma2: float, var_bounds: np.ndarray) -> float:
+        """Adjust the conditional variance at time t based on its bounds
+
+        Args:
+            sigma2 (float): conditional variance
+            var_bounds (np.ndarray): lower and upper bounds
+
+        Returns:
+            float: adjusted conditional variance
+        """
+        if USE_CPP_EXTENSION:
+            return ext.bounds_check(sigma2, var_bounds)
+        lower, upper = var_bounds[0], var_bounds[1]
+        sigma2 = max(lower, sigma2)
+        if sigma2 > upper:
+            if not np.isinf(sigma2):
+                sigma2 = upper + np.log(sigma2 / upper)
+            else:
+                sigma2 = upper + 1000
+        return sigma2
+
+    @staticmethod
+    def backcast(resids: np.ndarray) -> float:
+        """Computes the starting value for estimating conditional variance.
+
+        Args:
+            resids (np.ndarray): residuals
+
+        Returns:
+            float: initial value from backcasting
+        """
+        # Limit to first tau observations to reduce computation
+        tau = min(75, resids.shape[0])
+        # Weights for Exponential Weighted Moving Average (EWMA)
+        w = 0.94 ** np.arange(tau)
+        w = w / sum(w)  # Ensure weights add up to 1
+        # Let the initial value to be the EWMA of first tau observations
+        return float(np.sum((resids[:tau] ** 2) * w))
+
+    @staticmethod
+    def ewma(resids: np.ndarray, initial_value: float, lam=0.94) -> np.ndarray:
+        """Compute the conditional variance estimates using
+        Exponentially Weighted Moving Average (EWMA).
+
+        Args:
+            resids (np.ndarray): Residuals from the model.
+            initial_value (float): Initial value for the conditional variance.
+            lam (float): Decay factor for the EWMA.
+
+        Returns:
+            np.ndarray: Array containing the conditional variance estimates.
+        """
+        if USE_CPP_EXTENSION:
+            return ext.ewma(resids, initial_value, lam)
+        T = len(resids)
+        variance = np.empty(T)
+        variance[0] = initial_value  # Set the initial value
+        # Compute the squared residuals
+        squared_resids = resids**2
+        # Compute the EWMA using the decay factors and squared residuals
+        for t in range(1, T):
+            variance[t] = lam * variance[t - 1] + (1 - lam) * squared_resids[t - 1]
+        return variance
+
+
+class GJRGARCHModel(GARCHModel):
+    """:doc:`/algorithms/gjr-garch` model with constant mean and Normal noise
+
+    It estimates the model parameters only. No standard errors calculated.
+
+    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
+    Modifications are made for easier understaing of the code flow.
+    """
+
+    @dataclass
+    class Parameters:
+        mu: float = np.nan
+        omega: float = np.nan
+        alpha: float = np.nan
+        gamma: float = np.nan
+        beta: float = np.nan
+        loglikelihood: float = np.nan
+
+    def fit(self) -> Parameters:
+        """Estimates the GJR-GARCH(1,1) parameters via MLE
+
+        Returns:
+            List[float]: [mu, omega, alpha, gamma, beta, loglikelihood]
+        """
+        starting_vals = self.preparation()
+
+        bounds = [
+            (-np.inf, np.inf),  # No bounds for mu
+            (1e-6, np.inf),  # Lower bound for omega
+            (1e-6, 1.0),  # Bounds for alpha
+            (1e-6, 1.0),  # Bounds for gamma
+            (1e-6, 1.0),  # Boudns for beta
+        ]
+        if self.zero_mean:
+            bounds = bounds[1:]
+
+        # Set constraint for stationarity
+        def persistence_smaller_than_one(params: List[float]):
+            alpha, gamma, beta = params[-3:]
+            return 1.0 - (alpha + beta + gamma / 2)
+
+        # MLE via minimizing the negative log-likelihood
+        with warnings.catch_warnings():
+            warnings.filterwarnings(
+                "ignore",
+                "Values in x were outside bounds during a minimize step",
+                RuntimeWarning,
+            )
+            opt: OptimizeResult = minimize(
+                self.loglikelihood_model,
+                starting_vals,
+                args=(self.backcast_value, self.var_bounds, self.zero_mean),
+                method="SLSQP",
+                bounds=bounds,
+                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
+            )
+            if opt.success:
+                self.estimation_success = True
+                if self.zero_mean:
+                    self.parameters = type(self).Parameters(
+                        0.0, *list(opt.x), loglikelihood=-opt.fun
+                    )
+                else:
+                    self.parameters = type(self).Parameters(
+                        *list(opt.x), loglikelihood=-opt.fun
+                    )
+                self.resids = self.returns - self.parameters.mu
+
+        return self.parameters
+
+    @staticmethod
+    def compute_variance(
+        params: List[float],
+        resids: np.ndarray,
+        backcast: float,
+        var_bounds: np.ndarray,
+    ) -> np.ndarray:
+        """Computes the variances conditional on given parameters
+
+        Args:
+            params (List[float]): [omega, alpha, gamma, beta]
+            resids (np.ndarray): residuals from mean equation
+            backcast (float): backcast value
+            var_bounds (np.ndarray): variance bounds
+
+        Returns:
+            np.ndarray: conditional variance
+        """
+        if USE_CPP_EXTENSION:
+            return ext.compute_gjrgarch_variance(params, resids, backcast, var_bounds)
+        # fmt: off
+        omega, alpha, gamma, beta = params
+        sigma2 = np.zeros_like(resids)
+        sigma2[0] = omega + (alpha + gamma/2 + beta) * backcast
+        for t in range(1, len(resids)):
+            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
+            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
+            sigma2[t] = GJRGARCHModel.bounds_check(sigma2[t], var_bounds[t])
+        return sigma2
+
+    @staticmethod
+    def forecast_variance(
+        params: Parameters,
+        resids: np.ndarray,
+        initial_variance: float,
+    ) -> np.ndarray:
+        """Forecast the variances conditional on given parameters and residuals.
+
+        Args:
+            params (Parameters): :class:`frds.algorithms.GJRGARCHModel.Parameters`
+            resids (np.ndarray): residuals to use
+            initial_variance (float): starting value of variance forecasts
+
+        Returns:
+            np.ndarray: conditional variance
+        """
+        # fmt: off
+        omega, alpha, gamma, beta = params.omega, params.alpha, params.gamma, params.beta
+        sigma2 = np.zeros_like(resids)
+        sigma2[0] = initial_variance
+        for t in range(1, len(resids)):
+            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
+            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
+        return sigma2[1:]
+
+    def starting_values(self, resids: np.ndarray) -> List[float]:
+        """Finds the optimal initial values for the volatility model via a grid
+        search. For varying target persistence and alpha values, return the
+        combination of alpha and beta that gives the highest loglikelihood.
+
+        Args:
+            resids (np.ndarray): residuals from the mean model
+
+        Returns:
+            List[float]: [omega, alpha, gamma, beta]
+        """
+        # Candidate target persistence - we don't have a prior knowledge here
+        persistence_grid = [0.5, 0.7, 0.9, 0.98]
+        # Candidate alpha values
+        alpha_grid = [0.01, 0.05, 0.1, 0.2]
+        gamma_grid = alpha_grid
+        # Sample variance
+        var = self.returns.var()
+        # Backcast initial value for the volaility process
+        var_bounds = self.variance_bounds(resids)
+        backcast = self.backcast(resids)
+        initial_params = []
+        max_likelihood = -np.inf
+        # fmt: off
+        for alpha, gamma, p in itertools.product(*[alpha_grid, gamma_grid, persistence_grid]):
+            # Note that (alpha+beta) is the "persistence"
+            beta = p - alpha - gamma/2
+            # Note that the unconditional variance is omega/(1-persistence).
+            # As we are guessing the initial value, we use the sample variance
+            # as the unconditional variance to guess the omega value.
+            omega = var * (1 - p)
+            params = [omega, alpha, gamma, beta]
+            sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
+            likelihood = self.loglikelihood(resids, sigma2)
+            if likelihood > max_likelihood:
+                max_likelihood = likelihood
+                initial_params = params
+        return initial_params
+
+
+if __name__ == "__main__":
+    import pandas as pd
+    from pprint import pprint
+
+    df = pd.read_stata(
+        "https://www.stata-press.com/data/r18/stocks.dta", convert_dates=["date"]
+    )
+    df.set_index("date", inplace=True)
+    # Scale returns to percentage returns for better optimization results
+    returns = df["nissan"].to_numpy() * 100
+
+    g = GARCHModel(returns)
+    res = g.fit()
+    pprint(res)
+
+    gjr = GJRGARCHModel(returns)
+    res = gjr.fit()
+    pprint(res)
+
+    from arch import arch_model
+
+    m = arch_model(returns, p=1, o=1, q=1)
+    print(m.fit(disp=False))
-- 
2.43.0


From 37106fbf7ad271e2848de41c969ee5a8e0a5d767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 02/22] fix: DCC starting values keep the grid point with the
 highest loglikelihood

---
 src/frds/algorithms/_mgarch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frds/algorithms/_mgarch.py b/src/frds/algorithms/_mgarch.py
index c2c8a14..f38fdf3 100644
--- a/src/frds/algorithms/_mgarch.py
+++ b/src/frds/algorithms/_mgarch.py
@@ -313,6 +313,7 @@ class GARCHModel_DCC(GARCHModel_CCC):
                 continue
             ll = -self.loglikelihood_model([a, b])
             if ll > max_ll:
+                max_ll = ll
                 initial_values = [a, b]
         return initial_values
 
-- 
2.43.0


From 1b96319a8e7bd5c1fa8e4dc79a63645e26602d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 03/22] fix: fitting an estimated (GJR)GARCH model again
 returns its parameters

---
 src/frds/algorithms/_garch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index f4ec4d3..17f50b0 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -56,7 +56,7 @@ class GARCHModel:
         """
         # No repeated estimation?
         if self.estimation_success:
-            return
+            return self.parameters
 
         starting_vals = self.preparation()
 
@@ -361,6 +361,10 @@ class GJRGARCHModel(GARCHModel):
         Returns:
             List[float]: [mu, omega, alpha, gamma, beta, loglikelihood]
         """
+        # No repeated estimation
+        if self.estimation_success:
+            return self.parameters
+
         starting_vals = self.preparation()
 
         bounds = [
-- 
2.43.0


From 35b4d17a62d2f9cbbdb2e99ec34a70496db416e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 04/22] fix: conditional variances of an estimated model are
 those at its parameters

---
 src/frds/algorithms/_garch.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 17f50b0..fedbaa0 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -98,6 +98,13 @@ class GARCHModel:
                 else:
                     self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
                 self.resids = self.returns - self.parameters.mu
+                # The last evaluation by the optimizer needs not be at opt.x
+                self.sigma2 = self.compute_variance(
+                    opt.x if self.zero_mean else opt.x[1:],
+                    self.resids,
+                    self.backcast_value,
+                    self.var_bounds,
+                )
 
         return self.parameters
 
@@ -408,6 +415,13 @@ class GJRGARCHModel(GARCHModel):
                         *list(opt.x), loglikelihood=-opt.fun
                     )
                 self.resids = self.returns - self.parameters.mu
+                # The last evaluation by the optimizer needs not be at opt.x
+                self.sigma2 = self.compute_variance(
+                    opt.x if self.zero_mean else opt.x[1:],
+                    self.resids,
+                    self.backcast_value,
+                    self.var_bounds,
+                )
 
         return self.parameters
 
-- 
2.43.0


From 5d7fd86690fe8c1adee9fc32525c2a3a8dbd3265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 05/22] fix: (GJR)GARCH variance functions accept strided and
 non-float64 residuals

---
 src/frds/algorithms/_garch.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index fedbaa0..69f47d7 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -195,6 +195,9 @@ class GARCHModel:
         Returns:
             np.ndarray: conditional variance
         """
+        # The extension reads the arrays as contiguous float64
+        resids = np.ascontiguousarray(resids, dtype=np.float64)
+        var_bounds = np.ascontiguousarray(var_bounds, dtype=np.float64)
         if USE_CPP_EXTENSION:
             return ext.compute_garch_variance(params, resids, backcast, var_bounds)
         omega, alpha, beta = params
@@ -289,6 +292,7 @@ class GARCHModel:
         Returns:
             float: adjusted conditional variance
         """
+        var_bounds = np.ascontiguousarray(var_bounds, dtype=np.float64)
         if USE_CPP_EXTENSION:
             return ext.bounds_check(sigma2, var_bounds)
         lower, upper = var_bounds[0], var_bounds[1]
@@ -331,6 +335,7 @@ class GARCHModel:
         Returns:
             np.ndarray: Array containing the conditional variance estimates.
         """
+        resids = np.ascontiguousarray(resids, dtype=np.float64)
         if USE_CPP_EXTENSION:
             return ext.ewma(resids, initial_value, lam)
         T = len(resids)
@@ -443,6 +448,9 @@ class GJRGARCHModel(GARCHModel):
         Returns:
             np.ndarray: conditional variance
         """
+        # The extension reads the arrays as contiguous float64
+        resids = np.ascontiguousarray(resids, dtype=np.float64)
+        var_bounds = np.ascontiguousarray(var_bounds, dtype=np.float64)
         if USE_CPP_EXTENSION:
             return ext.compute_gjrgarch_variance(params, resids, backcast, var_bounds)
         # fmt: off
@@ -473,7 +481,7 @@ class GJRGARCHModel(GARCHModel):
         """
         # fmt: off
         omega, alpha, gamma, beta = params.omega, params.alpha, params.gamma, params.beta
-        sigma2 = np.zeros_like(resids)
+        sigma2 = np.zeros_like(resids, dtype=np.float64)
         sigma2[0] = initial_variance
         for t in range(1, len(resids)):
             sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
-- 
2.43.0


From c9ce75fb697d4f5f381f3dfb4d1b0458f4315156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 06/22] fix: the compiled DCC recursion targets the sample
 correlation matrix

---
 src/frds/algorithms/utils/mgarch.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/frds/algorithms/utils/mgarch.hpp b/src/frds/algorithms/utils/mgarch.hpp
index 7db5f1f..d943a5d 100644
--- a/src/frds/algorithms/utils/mgarch.hpp
+++ b/src/frds/algorithms/utils/mgarch.hpp
@@ -26,16 +26,22 @@ std::vector<double> conditional_correlations(double a, double b,
   }
 
   // Compute Q_bar (correlation matrix)
-  // Since z1 z2 have zero mean, covariance matrix is same as correlation matrix
-  double q_11_bar = 0.0, q_12_bar = 0.0, q_22_bar = 0.0;
+  // The sample means and variances of z1 z2 are close to but not 0 and 1
+  double mean1 = 0.0, mean2 = 0.0;
   for (int t = 0; t < T; ++t) {
-    q_11_bar += z1[t] * z1[t];
-    q_12_bar += z1[t] * z2[t];
-    q_22_bar += z2[t] * z2[t];
+    mean1 += z1[t];
+    mean2 += z2[t];
   }
-  q_11_bar /= T;
-  q_12_bar /= T;
-  q_22_bar /= T;
+  mean1 /= T;
+  mean2 /= T;
+  double var1 = 0.0, var2 = 0.0, cov12 = 0.0;
+  for (int t = 0; t < T; ++t) {
+    var1 += (z1[t] - mean1) * (z1[t] - mean1);
+    var2 += (z2[t] - mean2) * (z2[t] - mean2);
+    cov12 += (z1[t] - mean1) * (z2[t] - mean2);
+  }
+  double q_11_bar = 1.0, q_22_bar = 1.0;
+  double q_12_bar = cov12 / std::sqrt(var1 * var2);
 
   // Initialize q11, q12, q22
   std::vector<double> q11(T);
-- 
2.43.0


From 91fd06fcc5a54cb9227f0eb02e8b56295d945f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 07/22] fix: aggregate SRISK of a single firm

---
 src/frds/measures/_srisk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/measures/_srisk.py b/src/frds/measures/_srisk.py
index b709b6c..1788e91 100644
--- a/src/frds/measures/_srisk.py
+++ b/src/frds/measures/_srisk.py
@@ -94,4 +94,4 @@ class SRISK:
         if not aggregate_srisk:
             return srisk
         else:
-            return np.sum(srisk.clip(min=0.0))
+            return np.sum(np.clip(srisk, 0.0, None))
-- 
2.43.0


From 94a93c212ac05e919bc4ec4548df60b55db9265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 08/22] fix: absorption ratio is real when there are more
 assets than days

---
 src/frds/measures/_absorption_ratio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/measures/_absorption_ratio.py b/src/frds/measures/_absorption_ratio.py
index 14f88e4..6b101e4 100644
--- a/src/frds/measures/_absorption_ratio.py
+++ b/src/frds/measures/_absorption_ratio.py
@@ -48,4 +48,4 @@ class AbsorptionRatio:
         Returns:
             np.ndarray: eigenvalues
         """
-        return np.linalg.eigvals(self.asset_covariance)
+        return np.linalg.eigvalsh(self.asset_covariance)
-- 
2.43.0


From 105b2716bc9c1f54b149ca5dbae5f423d2272a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 09/22] fix: distress insurance premium is zero if no loss
 exceeds the threshold

---
 src/frds/measures/_distress_insurance_premium.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frds/measures/_distress_insurance_premium.py b/src/frds/measures/_distress_insurance_premium.py
index 37dea74..1deeae9 100644
--- a/src/frds/measures/_distress_insurance_premium.py
+++ b/src/frds/measures/_distress_insurance_premium.py
@@ -81,6 +81,9 @@ class DistressInsurancePremium:
 
         # Find the probability that the losses are great than 0.15 the total liabilities i.e. > 0.15*N
         prob_great_losses = np.sum(prob_losses[pct_threshold * n_banks :])
+        if prob_great_losses == 0:
+            # No such loss, hence no insurance premium
+            return 0.0
 
         exp_losses = np.dot(
             np.array(range(pct_threshold * n_banks, intervals * n_banks)),
-- 
2.43.0


From 283d03a9bb5b6def2f109ae0adc1398b84932a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 10/22] fix: distress insurance premium of losses in the last
 interval

---
 src/frds/measures/_distress_insurance_premium.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frds/measures/_distress_insurance_premium.py b/src/frds/measures/_distress_insurance_premium.py
index 1deeae9..25a8287 100644
--- a/src/frds/measures/_distress_insurance_premium.py
+++ b/src/frds/measures/_distress_insurance_premium.py
@@ -67,7 +67,8 @@ class DistressInsurancePremium:
         intervals = 100
         loss_given_default *= intervals
 
-        prob_losses = np.zeros(n_banks * intervals)
+        # The last slot is of the losses that round up to the maximum
+        prob_losses = np.zeros(n_banks * intervals + 1)
         for i in range(n_banks):
             for j in range(n_simulations):
                 # Multiply losses_given_default(i,j) by intervals to find the right slot
@@ -86,7 +87,7 @@ class DistressInsurancePremium:
             return 0.0
 
         exp_losses = np.dot(
-            np.array(range(pct_threshold * n_banks, intervals * n_banks)),
+            np.array(range(pct_threshold * n_banks, intervals * n_banks + 1)),
             prob_losses[pct_threshold * n_banks :],
         ) / (100 * prob_great_losses)
 
-- 
2.43.0


From c846cf28f0205a7fa5eb72f4ebb9040b42cb2f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 11/22] fix: distress insurance premium uses the percentage
 threshold it is given

---
 src/frds/measures/_distress_insurance_premium.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frds/measures/_distress_insurance_premium.py b/src/frds/measures/_distress_insurance_premium.py
index 25a8287..710b62e 100644
--- a/src/frds/measures/_distress_insurance_premium.py
+++ b/src/frds/measures/_distress_insurance_premium.py
@@ -78,7 +78,8 @@ class DistressInsurancePremium:
 
         # Convert to probabilities
         prob_losses = prob_losses / n_simulations
-        pct_threshold = int(default_threshold * 100)
+        # Round first, e.g., 0.29 * 100 is 28.999999999999996
+        pct_threshold = int(round(default_threshold * 100, 6))
 
         # Find the probability that the losses are great than 0.15 the total liabilities i.e. > 0.15*N
         prob_great_losses = np.sum(prob_losses[pct_threshold * n_banks :])
-- 
2.43.0


From 71f0a634ce537a733b6c8832ea9cae60cf032fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 12/22] fix: PIN estimation ignores infinite likelihoods and
 resets its success flag

---
 src/frds/measures/_probability_of_informed_trading.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frds/measures/_probability_of_informed_trading.py b/src/frds/measures/_probability_of_informed_trading.py
index b7e804b..dca44ed 100644
--- a/src/frds/measures/_probability_of_informed_trading.py
+++ b/src/frds/measures/_probability_of_informed_trading.py
@@ -73,6 +73,7 @@ class PIN:
 
         # Reset params
         self.parameters = type(self).Parameters()
+        self.estimation_success = False
         if method == "EHO2010":
             func = self.loglikelihood_EHO2010
         elif method == "LK2011":
@@ -95,7 +96,7 @@ class PIN:
                 )
                 if opt.success:
                     loglikelihood = self.parameters.loglikelihood
-                    if np.isnan(loglikelihood) or (-opt.fun<np.inf and -opt.fun > loglikelihood):
+                    if -opt.fun<np.inf and (np.isnan(loglikelihood) or -opt.fun > loglikelihood):
                         self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
                         self.parameters.calculate_pin()
                         self.parameters.method = method
-- 
2.43.0


From 26a605024b67a3de2b96b751fa6573ccc97575f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 13/22] fix: spreads and price impact use trade directions
 given as a list or series

---
 src/frds/measures/price_impact.py | 3 ++-
 src/frds/measures/spread.py       | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/frds/measures/price_impact.py b/src/frds/measures/price_impact.py
index 40b8d53..af8b5f9 100644
--- a/src/frds/measures/price_impact.py
+++ b/src/frds/measures/price_impact.py
@@ -29,7 +29,7 @@ def simple_price_impact(
     midpoint = np.asarray(midpoint)
     volume = np.asarray(volume)
     assert midpoint_later.shape == midpoint.shape == volume.shape
-    if not isinstance(trade_direction, np.ndarray):
+    if trade_direction is None:
         # No trade direction
         if pct_spread:
             spread = 2 * np.absolute(midpoint_later - midpoint) / midpoint * 100
@@ -37,6 +37,7 @@ def simple_price_impact(
             spread = 2 * np.absolute(np.log(midpoint_later) - np.log(midpoint))
     else:
         # Use trade direction
+        trade_direction = np.asarray(trade_direction)
         assert midpoint.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (midpoint_later - midpoint) / midpoint * 100
diff --git a/src/frds/measures/spread.py b/src/frds/measures/spread.py
index 30504c2..ab90809 100644
--- a/src/frds/measures/spread.py
+++ b/src/frds/measures/spread.py
@@ -50,7 +50,7 @@ def effective_spread(
     midpoint = np.asarray(midpoint)
     volume = np.asarray(volume)
     assert price.shape == midpoint.shape == volume.shape
-    if not isinstance(trade_direction, np.ndarray):
+    if trade_direction is None:
         # No trade direction
         if pct_spread:
             spread = 2 * np.absolute(price - midpoint) / midpoint * 100
@@ -58,6 +58,7 @@ def effective_spread(
             spread = 2 * np.absolute(np.log(price) - np.log(midpoint))
     else:
         # Use trade direction
+        trade_direction = np.asarray(trade_direction)
         assert price.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (price - midpoint) / midpoint * 100
@@ -98,7 +99,7 @@ def realized_spread(
     midpoint = np.asarray(midpoint)
     volume = np.asarray(volume)
     assert price.shape == midpoint_later.shape == midpoint.shape == volume.shape
-    if not isinstance(trade_direction, np.ndarray):
+    if trade_direction is None:
         # No trade direction
         if pct_spread:
             spread = 2 * np.absolute(price - midpoint_later) / midpoint * 100
@@ -106,6 +107,7 @@ def realized_spread(
             spread = 2 * np.absolute(np.log(price) - np.log(midpoint_later))
     else:
         # Use trade direction
+        trade_direction = np.asarray(trade_direction)
         assert price.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (price - midpoint_later) / midpoint * 100
-- 
2.43.0


From 3703de9e8eacaf616eb5959aaa1ef0a97adc5e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 14/22] fix: modified Merton modules import the option price
 they use

---
 src/frds/measures/modified_merton/find_face_value_indiv.py | 2 +-
 src/frds/measures/modified_merton/merton_solution.py       | 2 +-
 src/frds/measures/modified_merton/mod_merton_simulation.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frds/measures/modified_merton/find_face_value_indiv.py b/src/frds/measures/modified_merton/find_face_value_indiv.py
index 19de9fa..670d313 100644
--- a/src/frds/measures/modified_merton/find_face_value_indiv.py
+++ b/src/frds/measures/modified_merton/find_face_value_indiv.py
@@ -1,5 +1,5 @@
 import numpy as np
-from frds.measures.option_price import blsprice
+from frds.measures import blsprice
 
 
 def find_face_value_indiv(
diff --git a/src/frds/measures/modified_merton/merton_solution.py b/src/frds/measures/modified_merton/merton_solution.py
index d844421..fc1d910 100644
--- a/src/frds/measures/modified_merton/merton_solution.py
+++ b/src/frds/measures/modified_merton/merton_solution.py
@@ -3,7 +3,7 @@ from scipy.optimize import fsolve
 from scipy.stats import norm
 from typing import Tuple
 
-from frds.measures.option_price import blsprice
+from frds.measures import blsprice
 
 
 def merton_solution(
diff --git a/src/frds/measures/modified_merton/mod_merton_simulation.py b/src/frds/measures/modified_merton/mod_merton_simulation.py
index 07c3835..1cc1622 100644
--- a/src/frds/measures/modified_merton/mod_merton_simulation.py
+++ b/src/frds/measures/modified_merton/mod_merton_simulation.py
@@ -7,7 +7,7 @@ from scipy.stats import norm
 
 import matplotlib.pyplot as plt
 
-from frds.measures.option_price import blsprice
+from frds.measures import blsprice
 from frds.measures.modified_merton.merton_solution import merton_solution
 from frds.measures.modified_merton.mod_merton_computation import mod_merton_computation
 from frds.measures.modified_merton.mod_merton_create_lookup import (
-- 
2.43.0


From fb5ee5dcb5c643441e558b4bd6ea72291c2d106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 15/22] fix: Merton solution penalizes negative estimates

---
 src/frds/measures/modified_merton/merton_solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/measures/modified_merton/merton_solution.py b/src/frds/measures/modified_merton/merton_solution.py
index fc1d910..3a9ec5e 100644
--- a/src/frds/measures/modified_merton/merton_solution.py
+++ b/src/frds/measures/modified_merton/merton_solution.py
@@ -53,7 +53,7 @@ def merton_solution(
     # A includes PV(div), but B-S derivative prices don't
     # Merton asset volatility too high
 
-    penalty = esig * sig**2 + eA * A**2
+    penalty = esig * x[1] ** 2 + eA * x[0] ** 2
     err = (E - C + penalty, sigE - v + penalty)
 
     return err
-- 
2.43.0


From 0e78e644499c087ff48a71b78cebd805a11be14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 16/22] fix: isolation forest scores missing values along the
 split they were grown with

---
 src/frds/algorithms/isolation_forest/IsolationForest.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 576d94b..45cf901 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -123,7 +123,9 @@ double IsolationForest::pathLength(size_t const &ob,
   if (node->splitAttribute < this->n_num_attrs) {
     DataType val =
         *(DataType *)PyArray_GETPTR2(this->num_data, node->splitAttribute, ob);
-    if (val < node->splitValue) {
+    // Same split as when growing the tree
+    if (isnan(node->splitValue) ? isnan(val)
+                                : (isnan(val) || val < node->splitValue)) {
       return this->pathLength(ob, node->lnode, length + 1);
     } else {
       return this->pathLength(ob, node->rnode, length + 1);
-- 
2.43.0


From 2c6f5a94e915a6a622eba3fa891563799ebfc541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 17/22] fix: isolation trees are grown on their own samples

---
 src/frds/algorithms/isolation_forest/IsolationForest.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 45cf901..d1d2594 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -153,7 +153,6 @@ std::thread IsolationForest::grow(const unsigned int thread_id,
     // Make a vector from 0 to (nObs-1) representing the indices of observations
     std::vector<size_t> obs(this->nObs);
     std::iota(obs.begin(), obs.end(), 0);
-    std::vector<size_t> sample;
     // Make use of nObs and randomSeed in later random engine init
     auto random_offset =
         this->nObs %
@@ -163,7 +162,8 @@ std::thread IsolationForest::grow(const unsigned int thread_id,
       // Random engine for the i-th sampling and tree construction
       // The samples chosen and tree grown is thus determined by the number of
       // trees and random seed only, unaffected by the worker threads used
-      static thread_local auto randomGen = std::mt19937_64(i + random_offset);
+      auto randomGen = std::mt19937_64(i + random_offset);
+      std::vector<size_t> sample;
       std::sample(obs.begin(), obs.end(), std::back_inserter(sample),
                   this->treeSize, randomGen);
       auto tree = std::make_unique<IsolationTree>();
-- 
2.43.0


From 1d975582a41917e0c8ac202a4a7fc39f6d5e981b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 18/22] fix: isolation forest does not depend on the number of
 worker threads

---
 .../isolation_forest/IsolationForest.cpp        | 17 ++++++++---------
 .../isolation_forest/IsolationForest.hpp        |  4 +---
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index d1d2594..1356a77 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -94,7 +94,7 @@ IsolationForest::IsolationForest(PyArrayObject *num_data,
       nObs(PyArray_DIM(num_data, 1)) {
   this->num_data = num_data;
   this->char_data = char_data;
-  this->trees.reserve(forestSize);
+  this->trees.resize(forestSize);
   this->anomalyScores.resize(this->nObs);
   // this->randomGen = std::mt19937_64(randomSeed);
   this->uniformDist =
@@ -147,9 +147,8 @@ double IsolationForest::pathLength(size_t const &ob,
   }
 }
 
-std::thread IsolationForest::grow(const unsigned int thread_id,
-                                  const unsigned int jobs) {
-  return std::thread([this, thread_id, jobs] {
+std::thread IsolationForest::grow(const size_t start_tree, const size_t jobs) {
+  return std::thread([this, start_tree, jobs] {
     // Make a vector from 0 to (nObs-1) representing the indices of observations
     std::vector<size_t> obs(this->nObs);
     std::iota(obs.begin(), obs.end(), 0);
@@ -157,7 +156,7 @@ std::thread IsolationForest::grow(const unsigned int thread_id,
     auto random_offset =
         this->nObs %
         (this->randomSeed > 0 ? this->randomSeed : 1 - this->randomSeed);
-    for (size_t i = thread_id * jobs; i < thread_id * jobs + jobs; i++) {
+    for (size_t i = start_tree; i < start_tree + jobs; i++) {
       // Sample `treeSize` observations without replacement
       // Random engine for the i-th sampling and tree construction
       // The samples chosen and tree grown is thus determined by the number of
@@ -168,9 +167,7 @@ std::thread IsolationForest::grow(const unsigned int thread_id,
                   this->treeSize, randomGen);
       auto tree = std::make_unique<IsolationTree>();
       growTree(sample, tree->root, 0, randomGen);
-      this->mylock.lock();
-      this->trees.push_back(std::move(tree));
-      this->mylock.unlock();
+      this->trees[i] = std::move(tree);
     }
   });
 };
@@ -179,6 +176,7 @@ void IsolationForest::grow() {
   const auto jobs_per_processor = this->forestSize / this->workers;
   std::vector<std::thread> ts;
   ts.reserve(this->workers);
+  size_t start_tree = 0;
 
   Py_BEGIN_ALLOW_THREADS
 
@@ -186,7 +184,8 @@ void IsolationForest::grow() {
     auto jobs =
         i == 0 ? this->forestSize - jobs_per_processor * (this->workers - 1)
                : jobs_per_processor;
-    auto t = this->grow(i, jobs);
+    auto t = this->grow(start_tree, jobs);
+    start_tree += jobs;
     ts.push_back(std::move(t));
   }
 
diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.hpp b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
index e7c2ffd..e9ff056 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.hpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
@@ -3,7 +3,6 @@
 
 #define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
 #include <memory>
-#include <mutex>
 #include <random>
 #include <thread>
 #include <vector>
@@ -52,7 +51,6 @@ class IsolationForest {
   const size_t n_num_attrs, n_char_attrs, nObs;
   const unsigned int workers = std::thread::hardware_concurrency();
   std::vector<std::unique_ptr<IsolationTree>> trees;
-  std::mutex mylock;
 
   /* methods */
   inline double averagePathLength(size_t const &nObs);
@@ -61,7 +59,7 @@ class IsolationForest {
   void growTree(std::vector<size_t> &sample,
                 std::unique_ptr<IsolationTree::Node> &node, int const height,
                 std::mt19937_64 randomGen);
-  std::thread grow(const unsigned int thread_id, const unsigned int jobs);
+  std::thread grow(const size_t start_tree, const size_t jobs);
   std::thread calAnomalyScores(const size_t &start_ob, const size_t &n);
   double anomalyScore(size_t const &ob);
 
-- 
2.43.0


From a351a8227d8d1914375d4f092b73e34fb6047230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 19/22] fix: isolation forest reads no more than the width of
 its strings

---
 .../isolation_forest/IsolationForest.cpp      | 27 +++++++++----------
 .../isolation_forest/IsolationForest.hpp      |  1 +
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 1356a77..c13bee2 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <cstring>
 #include <iterator>
 #include <numeric>
 
@@ -57,16 +58,10 @@ void IsolationForest::growTree(std::vector<size_t> &sample,
     // The datatype of the attribute is string
     CharDataType val = (CharDataType)PyArray_GETPTR2(
         this->char_data, attr - this->n_num_attrs, sample[dist(randomGen)]);
-    const auto val_len = strlen(val);
     for (auto &i : sample) {
       auto obsVal = (CharDataType)PyArray_GETPTR2(this->char_data,
                                                   attr - this->n_num_attrs, i);
-      const auto obsVal_len = strlen(obsVal);
-      if (obsVal_len < val_len) {
-        lobs.push_back(i);
-      } else if (obsVal_len > val_len) {
-        robs.push_back(i);
-      } else if (strcmp(obsVal, val) < 0) {
+      if (this->compareStrings(obsVal, val) < 0) {
         lobs.push_back(i);
       } else {
         robs.push_back(i);
@@ -101,6 +96,16 @@ IsolationForest::IsolationForest(PyArrayObject *num_data,
       std::uniform_int_distribution<size_t>(0, n_num_attrs + n_char_attrs - 1);
 }
 
+// Shorter strings are "smaller". The longest strings in the numpy array are not
+// null-terminated, so no more than its item size must be read.
+int IsolationForest::compareStrings(const char *a, const char *b) {
+  const size_t size = PyArray_ITEMSIZE(this->char_data);
+  const auto a_len = strnlen(a, size);
+  const auto b_len = strnlen(b, size);
+  if (a_len != b_len) return a_len < b_len ? -1 : 1;
+  return memcmp(a, b, a_len);
+}
+
 inline double IsolationForest::averagePathLength(size_t const &nObs) {
   auto n = (double)nObs;
   return 2 * (log(n - 1) + EULER_GAMMA) - (2 * (n - 1) / n);
@@ -133,13 +138,7 @@ double IsolationForest::pathLength(size_t const &ob,
   } else {
     CharDataType val = (CharDataType)PyArray_GETPTR2(
         this->char_data, node->splitAttribute - this->n_num_attrs, ob);
-    const auto val_len = strlen(val);
-    const auto splitVal_len = strlen(node->splitChar);
-    if (val_len < splitVal_len) {
-      return this->pathLength(ob, node->lnode, length + 1);
-    } else if (val_len > splitVal_len) {
-      return this->pathLength(ob, node->rnode, length + 1);
-    } else if (strcmp(val, node->splitChar) < 0) {
+    if (this->compareStrings(val, node->splitChar) < 0) {
       return this->pathLength(ob, node->lnode, length + 1);
     } else {
       return this->pathLength(ob, node->rnode, length + 1);
diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.hpp b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
index e9ff056..89439c9 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.hpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
@@ -53,6 +53,7 @@ class IsolationForest {
   std::vector<std::unique_ptr<IsolationTree>> trees;
 
   /* methods */
+  int compareStrings(const char *a, const char *b);
   inline double averagePathLength(size_t const &nObs);
   double pathLength(size_t const &ob,
                     std::unique_ptr<IsolationTree::Node> &node, int length = 0);
-- 
2.43.0


From 25a553e21d88b0db808f8afb7586a13836c06901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:18 +0000
Subject: [PATCH 20/22] fix: keep the CRLF line endings of _garch.py, converted
 by accident in the previous fixes

---
 src/frds/algorithms/_garch.py | 1106 ++++++++++++++++-----------------
 1 file changed, 553 insertions(+), 553 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 69f47d7..3581c02 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -1,553 +1,553 @@
-import warnings
-import itertools
-from typing import List
-from dataclasses import dataclass
-import numpy as np
-from scipy.optimize import minimize, OptimizeResult
-
-USE_CPP_EXTENSION = True
-try:
-    import frds.algorithms.utils.utils_ext as ext
-except ImportError:
-    USE_CPP_EXTENSION = False
-
-
-class GARCHModel:
-    """:doc:`/algorithms/garch` model with constant mean and Normal noise
-
-    It estimates the model parameters only. No standard errors calculated.
-
-    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
-    Modifications are made for easier understaing of the code flow.
-    """
-
-    @dataclass
-    class Parameters:
-        mu: float = np.nan
-        omega: float = np.nan
-        alpha: float = np.nan
-        beta: float = np.nan
-        loglikelihood: float = np.nan
-
-    def __init__(self, returns: np.ndarray, zero_mean=False) -> None:
-        """__init__
-
-        Args:
-            returns (np.ndarray): ``(T,)`` array of ``T`` returns
-            zero_mean (bool): whether to use a zero mean returns model. Default to False.
-
-        .. note:: ``returns`` is best to be percentage returns for optimization
-        """
-        self.returns = np.asarray(returns, dtype=np.float64)
-        self.estimation_success = False
-        self.loglikelihood_final = np.nan
-        self.parameters = type(self).Parameters()
-        self.resids = np.empty_like(self.returns)
-        self.sigma2 = np.empty_like(self.returns)
-        self.backcast_value = np.nan
-        self.var_bounds: np.ndarray = None
-        self.zero_mean = zero_mean
-
-    def fit(self) -> Parameters:
-        """Estimates the GARCH(1,1) parameters via MLE
-
-        Returns:
-            params: :class:`frds.algorithms.GARCHModel.Parameters`
-        """
-        # No repeated estimation?
-        if self.estimation_success:
-            return self.parameters
-
-        starting_vals = self.preparation()
-
-        # Set bounds for parameters
-        bounds = [
-            (-np.inf, np.inf),  # No bounds for mu
-            (1e-6, np.inf),  # Lower bound for omega
-            (0.0, 1.0),  # Bounds for alpha
-            (0.0, 1.0),  # Boudns for beta
-        ]
-        if self.zero_mean:
-            bounds = bounds[1:]
-
-        # Set constraint for stationarity
-        def persistence_smaller_than_one(params: List[float]):
-            alpha, beta = params[-2:]
-            return 1.0 - (alpha + beta)
-
-        # MLE via minimizing the negative log-likelihood
-        # fmt: off
-        with warnings.catch_warnings():
-            warnings.filterwarnings(
-                "ignore",
-                "Values in x were outside bounds during a minimize step",
-                RuntimeWarning,
-            )
-            opt: OptimizeResult = minimize(
-                self.loglikelihood_model,
-                starting_vals,
-                args=(self.backcast_value, self.var_bounds, self.zero_mean),
-                method="SLSQP",
-                bounds=bounds,
-                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
-            )
-            if opt.success:
-                self.estimation_success = True
-                if self.zero_mean:
-                    self.parameters = type(self).Parameters(0.0, *list(opt.x), loglikelihood=-opt.fun)
-                else:
-                    self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
-                self.resids = self.returns - self.parameters.mu
-                # The last evaluation by the optimizer needs not be at opt.x
-                self.sigma2 = self.compute_variance(
-                    opt.x if self.zero_mean else opt.x[1:],
-                    self.resids,
-                    self.backcast_value,
-                    self.var_bounds,
-                )
-
-        return self.parameters
-
-    def preparation(self) -> List[float]:
-        """Prepare starting values.
-
-        Returns:
-            List[float]: list of starting values
-        """
-        # Compute a starting value for volatility process by backcasting
-        if self.zero_mean:
-            resids = self.returns
-        else:
-            resids = self.returns - np.mean(self.returns)
-        self.backcast_value = self.backcast(resids)
-        # Compute a loose bound for the volatility process
-        # This is to avoid NaN in MLE by avoiding zero/negative variance,
-        # as well as unreasonably large variance.
-        self.var_bounds = self.variance_bounds(resids)
-        # Compute the starting values for MLE
-        # Starting values for the volatility process
-        var_params = self.starting_values(resids)
-        # Starting value for mu is the sample mean return
-        initial_mu = self.returns.mean()
-        # Starting values are [mu, omega, alpha, beta]
-        starting_vals = [initial_mu, *var_params]
-
-        return starting_vals if not self.zero_mean else var_params
-
-    def loglikelihood_model(
-        self,
-        params: np.ndarray,
-        backcast: float,
-        var_bounds: np.ndarray,
-        zero_mean=False,
-    ) -> float:
-        """Calculates the negative log-likelihood based on the current ``params``.
-        This function is used in optimization.
-
-        Args:
-            params (np.ndarray): [mu, omega, alpha, (gamma), beta]
-            backcast (float): backcast value
-            var_bounds (np.ndarray): variance bounds
-
-        Returns:
-            float: negative log-likelihood
-        """
-        if zero_mean:
-            resids = self.returns
-            self.sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
-        else:
-            resids = self.returns - params[0]  # params[0] is mu
-            self.sigma2 = self.compute_variance(
-                params[1:], resids, backcast, var_bounds
-            )
-        return -self.loglikelihood(resids, self.sigma2)
-
-    @staticmethod
-    def loglikelihood(resids: np.ndarray, sigma2: np.ndarray) -> float:
-        """Computes the log-likelihood assuming residuals are
-        normally distributed conditional on the variance.
-
-        Args:
-            resids (np.ndarray): residuals to use in computing log-likelihood.
-            sigma2 (np.ndarray): conditional variance of residuals.
-
-        Returns:
-            float: log-likelihood
-        """
-        l = -0.5 * (np.log(2 * np.pi) + np.log(sigma2) + resids**2.0 / sigma2)
-        return np.sum(l)
-
-    @staticmethod
-    def compute_variance(
-        params: List[float],
-        resids: np.ndarray,
-        backcast: float,
-        var_bounds: np.ndarray,
-    ) -> np.ndarray:
-        """Computes the variances conditional on given parameters
-
-        Args:
-            params (List[float]): [omega, alpha, beta]
-            resids (np.ndarray): residuals from mean equation
-            backcast (float): backcast value
-            var_bounds (np.ndarray): variance bounds
-
-        Returns:
-            np.ndarray: conditional variance
-        """
-        # The extension reads the arrays as contiguous float64
-        resids = np.ascontiguousarray(resids, dtype=np.float64)
-        var_bounds = np.ascontiguousarray(var_bounds, dtype=np.float64)
-        if USE_CPP_EXTENSION:
-            return ext.compute_garch_variance(params, resids, backcast, var_bounds)
-        omega, alpha, beta = params
-        sigma2 = np.zeros_like(resids)
-        sigma2[0] = omega + (alpha + beta) * backcast
-        for t in range(1, len(resids)):
-            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
-            sigma2[t] = GARCHModel.bounds_check(sigma2[t], var_bounds[t])
-        return sigma2
-
-    def starting_values(self, resids: np.ndarray) -> List[float]:
-        """Finds the optimal initial values for the volatility model via a grid
-        search. For varying target persistence and alpha values, return the
-        combination of alpha and beta that gives the highest loglikelihood.
-
-        Args:
-            resids (np.ndarray): residuals from the mean model
-
-        Returns:
-            List[float]: [omega, alpha, beta]
-        """
-        # Candidate target persistence - we don't have a prior knowledge here
-        persistence_grid = [0.5, 0.7, 0.9, 0.98]
-        # Candidate alpha values
-        alpha_grid = [0.01, 0.05, 0.1, 0.2]
-        # Sample variance
-        var = self.returns.var()
-        # Backcast initial value for the volaility process
-        initial_params = []
-        max_likelihood = -np.inf
-        for alpha, p in itertools.product(*[alpha_grid, persistence_grid]):
-            # Note that (alpha+beta) is the "persistence"
-            beta = p - alpha
-            # Note that the unconditional variance is omega/(1-persistence).
-            # As we are guessing the initial value, we use the sample variance
-            # as the unconditional variance to guess the omega value.
-            omega = var * (1 - p)
-            params = [omega, alpha, beta]
-            sigma2 = self.compute_variance(
-                params, resids, self.backcast_value, self.var_bounds
-            )
-            likelihood = self.loglikelihood(resids, sigma2)
-            if likelihood > max_likelihood:
-                max_likelihood = likelihood
-                initial_params = params
-        return initial_params
-
-    @staticmethod
-    def variance_bounds(resids: np.ndarray) -> np.ndarray:
-        """Compute bounds for conditional variances using EWMA.
-
-        This function calculates the lower and upper bounds for conditional variances
-        based on the residuals provided. The bounds are computed to ensure numerical
-        stability during the parameter estimation process of GARCH models. The function
-        uses Exponentially Weighted Moving Average (EWMA) to estimate the initial variance
-        and then adjusts these estimates to lie within global bounds.
-
-        Args:
-            resids (np.ndarray): residuals from the mean model.
-
-        Returns:
-            np.ndarray: an array where each row contains the lower and upper bounds for the conditional variance at each time point.
-        """
-
-        T = len(resids)
-        tau = min(75, T)
-        # Compute initial variance using EWMA
-        decay_factor = 0.94
-        weights = decay_factor ** np.arange(tau)
-        weights /= weights.sum()
-        initial_variance = np.dot(weights, resids[:tau] ** 2)
-        # Compute var_bound using EWMA (assuming ewma_recursion is defined)
-        var_bound = GARCHModel.ewma(resids, initial_variance)
-        # Compute global bounds
-        global_lower_bound = resids.var() / 1e8
-        global_upper_bound = 1e7 * (1 + (resids**2).max())
-        # Adjust var_bound to ensure it lies within global bounds
-        var_bound = np.clip(var_bound, global_lower_bound, global_upper_bound)
-        # Create bounds matrix
-        var_bounds = np.vstack((var_bound / 1e6, var_bound * 1e6)).T
-
-        return np.ascontiguousarray(var_bounds)
-
-    @staticmethod
-    def bounds_check(sigma2: float, var_bounds: np.ndarray) -> float:
-        """Adjust the conditional variance at time t based on its bounds
-
-        Args:
-            sigma2 (float): conditional variance
-            var_bounds (np.ndarray): lower and upper bounds
-
-        Returns:
-            float: adjusted conditional variance
-        """
-        var_bounds = np.ascontiguousarray(var_bounds, dtype=np.float64)
-        if USE_CPP_EXTENSION:
-            return ext.bounds_check(sigma2, var_bounds)
-        lower, upper = var_bounds[0], var_bounds[1]
-        sigma2 = max(lower, sigma2)
-        if sigma2 > upper:
-            if not np.isinf(sigma2):
-                sigma2 = upper + np.log(sigma2 / upper)
-            else:
-                sigma2 = upper + 1000
-        return sigma2
-
-    @staticmethod
-    def backcast(resids: np.ndarray) -> float:
-        """Computes the starting value for estimating conditional variance.
-
-        Args:
-            resids (np.ndarray): residuals
-
-        Returns:
-            float: initial value from backcasting
-        """
-        # Limit to first tau observations to reduce computation
-        tau = min(75, resids.shape[0])
-        # Weights for Exponential Weighted Moving Average (EWMA)
-        w = 0.94 ** np.arange(tau)
-        w = w / sum(w)  # Ensure weights add up to 1
-        # Let the initial value to be the EWMA of first tau observations
-        return float(np.sum((resids[:tau] ** 2) * w))
-
-    @staticmethod
-    def ewma(resids: np.ndarray, initial_value: float, lam=0.94) -> np.ndarray:
-        """Compute the conditional variance estimates using
-        Exponentially Weighted Moving Average (EWMA).
-
-        Args:
-            resids (np.ndarray): Residuals from the model.
-            initial_value (float): Initial value for the conditional variance.
-            lam (float): Decay factor for the EWMA.
-
-        Returns:
-            np.ndarray: Array containing the conditional variance estimates.
-        """
-        resids = np.ascontiguousarray(resids, dtype=np.float64)
-        if USE_CPP_EXTENSION:
-            return ext.ewma(resids, initial_value, lam)
-        T = len(resids)
-        variance = np.empty(T)
-        variance[0] = initial_value  # Set the initial value
-        # Compute the squared residuals
-        squared_resids = resids**2
-        # Compute the EWMA using the decay factors and squared residuals
-        for t in range(1, T):
-            variance[t] = lam * variance[t - 1] + (1 - lam) * squared_resids[t - 1]
-        return variance
-
-
-class GJRGARCHModel(GARCHModel):
-    """:doc:`/algorithms/gjr-garch` model with constant mean and Normal noise
-
-    It estimates the model parameters only. No standard errors calculated.
-
-    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
-    Modifications are made for easier understaing of the code flow.
-    """
-
-    @dataclass
-    class Parameters:
-        mu: float = np.nan
-        omega: float = np.nan
-        alpha: float = np.nan
-        gamma: float = np.nan
-        beta: float = np.nan
-        loglikelihood: float = np.nan
-
-    def fit(self) -> Parameters:
-        """Estimates the GJR-GARCH(1,1) parameters via MLE
-
-        Returns:
-            List[float]: [mu, omega, alpha, gamma, beta, loglikelihood]
-        """
-        # No repeated estimation
-        if self.estimation_success:
-            return self.parameters
-
-        starting_vals = self.preparation()
-
-        bounds = [
-            (-np.inf, np.inf),  # No bounds for mu
-            (1e-6, np.inf),  # Lower bound for omega
-            (1e-6, 1.0),  # Bounds for alpha
-            (1e-6, 1.0),  # Bounds for gamma
-            (1e-6, 1.0),  # Boudns for beta
-        ]
-        if self.zero_mean:
-            bounds = bounds[1:]
-
-        # Set constraint for stationarity
-        def persistence_smaller_than_one(params: List[float]):
-            alpha, gamma, beta = params[-3:]
-            return 1.0 - (alpha + beta + gamma / 2)
-
-        # MLE via minimizing the negative log-likelihood
-        with warnings.catch_warnings():
-            warnings.filterwarnings(
-                "ignore",
-                "Values in x were outside bounds during a minimize step",
-                RuntimeWarning,
-            )
-            opt: OptimizeResult = minimize(
-                self.loglikelihood_model,
-                starting_vals,
-                args=(self.backcast_value, self.var_bounds, self.zero_mean),
-                method="SLSQP",
-                bounds=bounds,
-                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
-            )
-            if opt.success:
-                self.estimation_success = True
-                if self.zero_mean:
-                    self.parameters = type(self).Parameters(
-                        0.0, *list(opt.x), loglikelihood=-opt.fun
-                    )
-                else:
-                    self.parameters = type(self).Parameters(
-                        *list(opt.x), loglikelihood=-opt.fun
-                    )
-                self.resids = self.returns - self.parameters.mu
-                # The last evaluation by the optimizer needs not be at opt.x
-                self.sigma2 = self.compute_variance(
-                    opt.x if self.zero_mean else opt.x[1:],
-                    self.resids,
-                    self.backcast_value,
-                    self.var_bounds,
-                )
-
-        return self.parameters
-
-    @staticmethod
-    def compute_variance(
-        params: List[float],
-        resids: np.ndarray,
-        backcast: float,
-        var_bounds: np.ndarray,
-    ) -> np.ndarray:
-        """Computes the variances conditional on given parameters
-
-        Args:
-            params (List[float]): [omega, alpha, gamma, beta]
-            resids (np.ndarray): residuals from mean equation
-            backcast (float): backcast value
-            var_bounds (np.ndarray): variance bounds
-
-        Returns:
-            np.ndarray: conditional variance
-        """
-        # The extension reads the arrays as contiguous float64
-        resids = np.ascontiguousarray(resids, dtype=np.float64)
-        var_bounds = np.ascontiguousarray(var_bounds, dtype=np.float64)
-        if USE_CPP_EXTENSION:
-            return ext.compute_gjrgarch_variance(params, resids, backcast, var_bounds)
-        # fmt: off
-        omega, alpha, gamma, beta = params
-        sigma2 = np.zeros_like(resids)
-        sigma2[0] = omega + (alpha + gamma/2 + beta) * backcast
-        for t in range(1, len(resids)):
-            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
-            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
-            sigma2[t] = GJRGARCHModel.bounds_check(sigma2[t], var_bounds[t])
-        return sigma2
-
-    @staticmethod
-    def forecast_variance(
-        params: Parameters,
-        resids: np.ndarray,
-        initial_variance: float,
-    ) -> np.ndarray:
-        """Forecast the variances conditional on given parameters and residuals.
-
-        Args:
-            params (Parameters): :class:`frds.algorithms.GJRGARCHModel.Parameters`
-            resids (np.ndarray): residuals to use
-            initial_variance (float): starting value of variance forecasts
-
-        Returns:
-            np.ndarray: conditional variance
-        """
-        # fmt: off
-        omega, alpha, gamma, beta = params.omega, params.alpha, params.gamma, params.beta
-        sigma2 = np.zeros_like(resids, dtype=np.float64)
-        sigma2[0] = initial_variance
-        for t in range(1, len(resids)):
-            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
-            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
-        return sigma2[1:]
-
-    def starting_values(self, resids: np.ndarray) -> List[float]:
-        """Finds the optimal initial values for the volatility model via a grid
-        search. For varying target persistence and alpha values, return the
-        combination of alpha and beta that gives the highest loglikelihood.
-
-        Args:
-            resids (np.ndarray): residuals from the mean model
-
-        Returns:
-            List[float]: [omega, alpha, gamma, beta]
-        """
-        # Candidate target persistence - we don't have a prior knowledge here
-        persistence_grid = [0.5, 0.7, 0.9, 0.98]
-        # Candidate alpha values
-        alpha_grid = [0.01, 0.05, 0.1, 0.2]
-        gamma_grid = alpha_grid
-        # Sample variance
-        var = self.returns.var()
-        # Backcast initial value for the volaility process
-        var_bounds = self.variance_bounds(resids)
-        backcast = self.backcast(resids)
-        initial_params = []
-        max_likelihood = -np.inf
-        # fmt: off
-        for alpha, gamma, p in itertools.product(*[alpha_grid, gamma_grid, persistence_grid]):
-            # Note that (alpha+beta) is the "persistence"
-            beta = p - alpha - gamma/2
-            # Note that the unconditional variance is omega/(1-persistence).
-            # As we are guessing the initial value, we use the sample variance
-            # as the unconditional variance to guess the omega value.
-            omega = var * (1 - p)
-            params = [omega, alpha, gamma, beta]
-            sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
-            likelihood = self.loglikelihood(resids, sigma2)
-            if likelihood > max_likelihood:
-                max_likelihood = likelihood
-                initial_params = params
-        return initial_params
-
-
-if __name__ == "__main__":
-    import pandas as pd
-    from pprint import pprint
-
-    df = pd.read_stata(
-        "https://www.stata-press.com/data/r18/stocks.dta", convert_dates=["date"]
-    )
-    df.set_index("date", inplace=True)
-    # Scale returns to percentage returns for better optimization results
-    returns = df["nissan"].to_numpy() * 100
-
-    g = GARCHModel(returns)
-    res = g.fit()
-    pprint(res)
-
-    gjr = GJRGARCHModel(returns)
-    res = gjr.fit()
-    pprint(res)
-
-    from arch import arch_model
-
-    m = arch_model(returns, p=1, o=1, q=1)
-    print(m.fit(disp=False))
+import warnings
+import itertools
+from typing import List
+from dataclasses import dataclass
+import numpy as np
+from scipy.optimize import minimize, OptimizeResult
+
+USE_CPP_EXTENSION = True
+try:
+    import frds.algorithms.utils.utils_ext as ext
+except ImportError:
+    USE_CPP_EXTENSION = False
+
+
+class GARCHModel:
+    """:doc:`/algorithms/garch` model with constant mean and Normal noise
+
+    It estimates the model parameters only. No standard errors calculated.
+
+    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
+    Modifications are made for easier understaing of the code flow.
+    """
+
+    @dataclass
+    class Parameters:
+        mu: float = np.nan
+        omega: float = np.nan
+        alpha: float = np.nan
+        beta: float = np.nan
+        loglikelihood: float = np.nan
+
+    def __init__(self, returns: np.ndarray, zero_mean=False) -> None:
+        """__init__
+
+        Args:
+            returns (np.ndarray): ``(T,)`` array of ``T`` returns
+            zero_mean (bool): whether to use a zero mean returns model. Default to False.
+
+        .. note:: ``returns`` is best to be percentage returns for optimization
+        """
+        self.returns = np.asarray(returns, dtype=np.float64)
+        self.estimation_success = False
+        self.loglikelihood_final = np.nan
+        self.parameters = type(self).Parameters()
+        self.resids = np.empty_like(self.returns)
+        self.sigma2 = np.empty_like(self.returns)
+        self.backcast_value = np.nan
+        self.var_bounds: np.ndarray = None
+        self.zero_mean = zero_mean
+
+    def fit(self) -> Parameters:
+        """Estimates the GARCH(1,1) parameters via MLE
+
+        Returns:
+            params: :class:`frds.algorithms.GARCHModel.Parameters`
+        """
+        # No repeated estimation?
+        if self.estimation_success:
+            return self.parameters
+
+        starting_vals = self.preparation()
+
+        # Set bounds for parameters
+        bounds = [
+            (-np.inf, np.inf),  # No bounds for mu
+            (1e-6, np.inf),  # Lower bound for omega
+            (0.0, 1.0),  # Bounds for alpha
+            (0.0, 1.0),  # Boudns for beta
+        ]
+        if self.zero_mean:
+            bounds = bounds[1:]
+
+        # Set constraint for stationarity
+        def persistence_smaller_than_one(params: List[float]):
+            alpha, beta = params[-2:]
+            return 1.0 - (alpha + beta)
+
+        # MLE via minimizing the negative log-likelihood
+        # fmt: off
+        with warnings.catch_warnings():
+            warnings.filterwarnings(
+                "ignore",
+                "Values in x were outside bounds during a minimize step",
+                RuntimeWarning,
+            )
+            opt: OptimizeResult = minimize(
+                self.loglikelihood_model,
+                starting_vals,
+                args=(self.backcast_value, self.var_bounds, self.zero_mean),
+                method="SLSQP",
+                bounds=bounds,
+                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
+            )
+            if opt.success:
+                self.estimation_success = True
+                if self.zero_mean:
+                    self.parameters = type(self).Parameters(0.0, *list(opt.x), loglikelihood=-opt.fun)
+                else:
+                    self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
+                self.resids = self.returns - self.parameters.mu
+                # The last evaluation by the optimizer needs not be at opt.x
+                self.sigma2 = self.compute_variance(
+                    opt.x if self.zero_mean else opt.x[1:],
+                    self.resids,
+                    self.backcast_value,
+                    self.var_bounds,
+                )
+
+        return self.parameters
+
+    def preparation(self) -> List[float]:
+        """Prepare starting values.
+
+        Returns:
+            List[float]: list of starting values
+        """
+        # Compute a starting value for volatility process by backcasting
+        if self.zero_mean:
+            resids = self.returns
+        else:
+            resids = self.returns - np.mean(self.returns)
+        self.backcast_value = self.backcast(resids)
+        # Compute a loose bound for the volatility process
+        # This is to avoid NaN in MLE by avoiding zero/negative variance,
+        # as well as unreasonably large variance.
+        self.var_bounds = self.variance_bounds(resids)
+        # Compute the starting values for MLE
+        # Starting values for the volatility process
+        var_params = self.starting_values(resids)
+        # Starting value for mu is the sample mean return
+        initial_mu = self.returns.mean()
+        # Starting values are [mu, omega, alpha, beta]
+        starting_vals = [initial_mu, *var_params]
+
+        return starting_vals if not self.zero_mean else var_params
+
+    def loglikelihood_model(
+        self,
+        params: np.ndarray,
+        backcast: float,
+        var_bounds: np.ndarray,
+        zero_mean=False,
+    ) -> float:
+        """Calculates the negative log-likelihood based on the current ``params``.
+        This function is used in optimization.
+
+        Args:
+            params (np.ndarray): [mu, omega, alpha, (gamma), beta]
+            backcast (float): backcast value
+            var_bounds (np.ndarray): variance bounds
+
+        Returns:
+            float: negative log-likelihood
+        """
+        if zero_mean:
+            resids = self.returns
+            self.sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
+        else:
+            resids = self.returns - params[0]  # params[0] is mu
+            self.sigma2 = self.compute_variance(
+                params[1:], resids, backcast, var_bounds
+            )
+        return -self.loglikelihood(resids, self.sigma2)
+
+    @staticmethod
+    def loglikelihood(resids: np.ndarray, sigma2: np.ndarray) -> float:
+        """Computes the log-likelihood assuming residuals are
+        normally distributed conditional on the variance.
+
+        Args:
+            resids (np.ndarray): residuals to use in computing log-likelihood.
+            sigma2 (np.ndarray): conditional variance of residuals.
+
+        Returns:
+            float: log-likelihood
+        """
+        l = -0.5 * (np.log(2 * np.pi) + np.log(sigma2) + resids**2.0 / sigma2)
+        return np.sum(l)
+
+    @staticmethod
+    def compute_variance(
+        params: List[float],
+        resids: np.ndarray,
+        backcast: float,
+        var_bounds: np.ndarray,
+    ) -> np.ndarray:
+        """Computes the variances conditional on given parameters
+
+        Args:
+            params (List[float]): [omega, alpha, beta]
+            resids (np.ndarray): residuals from mean equation
+            backcast (float): backcast value
+            var_bounds (np.ndarray): variance bounds
+
+        Returns:
+            np.ndarray: conditional variance
+        """
+        # The extension reads the arrays as contiguous float64
+        resids = np.ascontiguousarray(resids, dtype=np.float64)
+        var_bounds = np.ascontiguousarray(var_bounds, dtype=np.float64)
+        if USE_CPP_EXTENSION:
+            return ext.compute_garch_variance(params, resids, backcast, var_bounds)
+        omega, alpha, beta = params
+        sigma2 = np.zeros_like(resids)
+        sigma2[0] = omega + (alpha + beta) * backcast
+        for t in range(1, len(resids)):
+            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
+            sigma2[t] = GARCHModel.bounds_check(sigma2[t], var_bounds[t])
+        return sigma2
+
+    def starting_values(self, resids: np.ndarray) -> List[float]:
+        """Finds the optimal initial values for the volatility model via a grid
+        search. For varying target persistence and alpha values, return the
+        combination of alpha and beta that gives the highest loglikelihood.
+
+        Args:
+            resids (np.ndarray): residuals from the mean model
+
+        Returns:
+            List[float]: [omega, alpha, beta]
+        """
+        # Candidate target persistence - we don't have a prior knowledge here
+        persistence_grid = [0.5, 0.7, 0.9, 0.98]
+        # Candidate alpha values
+        alpha_grid = [0.01, 0.05, 0.1, 0.2]
+        # Sample variance
+        var = self.returns.var()
+        # Backcast initial value for the volaility process
+        initial_params = []
+        max_likelihood = -np.inf
+        for alpha, p in itertools.product(*[alpha_grid, persistence_grid]):
+            # Note that (alpha+beta) is the "persistence"
+            beta = p - alpha
+            # Note that the unconditional variance is omega/(1-persistence).
+            # As we are guessing the initial value, we use the sample variance
+            # as the unconditional variance to guess the omega value.
+            omega = var * (1 - p)
+            params = [omega, alpha, beta]
+            sigma2 = self.compute_variance(
+                params, resids, self.backcast_value, self.var_bounds
+            )
+            likelihood = self.loglikelihood(resids, sigma2)
+            if likelihood > max_likelihood:
+                max_likelihood = likelihood
+                initial_params = params
+        return initial_params
+
+    @staticmethod
+    def variance_bounds(resids: np.ndarray) -> np.ndarray:
+        """Compute bounds for conditional variances using EWMA.
+
+        This function calculates the lower and upper bounds for conditional variances
+        based on the residuals provided. The bounds are computed to ensure numerical
+        stability during the parameter estimation process of GARCH models. The function
+        uses Exponentially Weighted Moving Average (EWMA) to estimate the initial variance
+        and then adjusts these estimates to lie within global bounds.
+
+        Args:
+            resids (np.ndarray): residuals from the mean model.
+
+        Returns:
+            np.ndarray: an array where each row contains the lower and upper bounds for the conditional variance at each time point.
+        """
+
+        T = len(resids)
+        tau = min(75, T)
+        # Compute initial variance using EWMA
+        decay_factor = 0.94
+        weights = decay_factor ** np.arange(tau)
+        weights /= weights.sum()
+        initial_variance = np.dot(weights, resids[:tau] ** 2)
+        # Compute var_bound using EWMA (assuming ewma_recursion is defined)
+        var_bound = GARCHModel.ewma(resids, initial_variance)
+        # Compute global bounds
+        global_lower_bound = resids.var() / 1e8
+        global_upper_bound = 1e7 * (1 + (resids**2).max())
+        # Adjust var_bound to ensure it lies within global bounds
+        var_bound = np.clip(var_bound, global_lower_bound, global_upper_bound)
+        # Create bounds matrix
+        var_bounds = np.vstack((var_bound / 1e6, var_bound * 1e6)).T
+
+        return np.ascontiguousarray(var_bounds)
+
+    @staticmethod
+    def bounds_check(sigma2: float, var_bounds: np.ndarray) -> float:
+        """Adjust the conditional variance at time t based on its bounds
+
+        Args:
+            sigma2 (float): conditional variance
+            var_bounds (np.ndarray): lower and upper bounds
+
+        Returns:
+            float: adjusted conditional variance
+        """
+        var_bounds = np.ascontiguousarray(var_bounds, dtype=np.float64)
+        if USE_CPP_EXTENSION:
+            return ext.bounds_check(sigma2, var_bounds)
+        lower, upper = var_bounds[0], var_bounds[1]
+        sigma2 = max(lower, sigma2)
+        if sigma2 > upper:
+            if not np.isinf(sigma2):
+                sigma2 = upper + np.log(sigma2 / upper)
+            else:
+                sigma2 = upper + 1000
+        return sigma2
+
+    @staticmethod
+    def backcast(resids: np.ndarray) -> float:
+        """Computes the starting value for estimating conditional variance.
+
+        Args:
+            resids (np.ndarray): residuals
+
+        Returns:
+            float: initial value from backcasting
+        """
+        # Limit to first tau observations to reduce computation
+        tau = min(75, resids.shape[0])
+        # Weights for Exponential Weighted Moving Average (EWMA)
+        w = 0.94 ** np.arange(tau)
+        w = w / sum(w)  # Ensure weights add up to 1
+        # Let the initial value to be the EWMA of first tau observations
+        return float(np.sum((resids[:tau] ** 2) * w))
+
+    @staticmethod
+    def ewma(resids: np.ndarray, initial_value: float, lam=0.94) -> np.ndarray:
+        """Compute the conditional variance estimates using
+        Exponentially Weighted Moving Average (EWMA).
+
+        Args:
+            resids (np.ndarray): Residuals from the model.
+            initial_value (float): Initial value for the conditional variance.
+            lam (float): Decay factor for the EWMA.
+
+        Returns:
+            np.ndarray: Array containing the conditional variance estimates.
+        """
+        resids = np.ascontiguousarray(resids, dtype=np.float64)
+        if USE_CPP_EXTENSION:
+            return ext.ewma(resids, initial_value, lam)
+        T = len(resids)
+        variance = np.empty(T)
+        variance[0] = initial_value  # Set the initial value
+        # Compute the squared residuals
+        squared_resids = resids**2
+        # Compute the EWMA using the decay factors and squared residuals
+        for t in range(1, T):
+            variance[t] = lam * variance[t - 1] + (1 - lam) * squared_resids[t - 1]
+        return variance
+
+
+class GJRGARCHModel(GARCHModel):
+    """:doc:`/algorithms/gjr-garch` model with constant mean and Normal noise
+
+    It estimates the model parameters only. No standard errors calculated.
+
+    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
+    Modifications are made for easier understaing of the code flow.
+    """
+
+    @dataclass
+    class Parameters:
+        mu: float = np.nan
+        omega: float = np.nan
+        alpha: float = np.nan
+        gamma: float = np.nan
+        beta: float = np.nan
+        loglikelihood: float = np.nan
+
+    def fit(self) -> Parameters:
+        """Estimates the GJR-GARCH(1,1) parameters via MLE
+
+        Returns:
+            List[float]: [mu, omega, alpha, gamma, beta, loglikelihood]
+        """
+        # No repeated estimation
+        if self.estimation_success:
+            return self.parameters
+
+        starting_vals = self.preparation()
+
+        bounds = [
+            (-np.inf, np.inf),  # No bounds for mu
+            (1e-6, np.inf),  # Lower bound for omega
+            (1e-6, 1.0),  # Bounds for alpha
+            (1e-6, 1.0),  # Bounds for gamma
+            (1e-6, 1.0),  # Boudns for beta
+        ]
+        if self.zero_mean:
+            bounds = bounds[1:]
+
+        # Set constraint for stationarity
+        def persistence_smaller_than_one(params: List[float]):
+            alpha, gamma, beta = params[-3:]
+            return 1.0 - (alpha + beta + gamma / 2)
+
+        # MLE via minimizing the negative log-likelihood
+        with warnings.catch_warnings():
+            warnings.filterwarnings(
+                "ignore",
+                "Values in x were outside bounds during a minimize step",
+                RuntimeWarning,
+            )
+            opt: OptimizeResult = minimize(
+                self.loglikelihood_model,
+                starting_vals,
+                args=(self.backcast_value, self.var_bounds, self.zero_mean),
+                method="SLSQP",
+                bounds=bounds,
+                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
+            )
+            if opt.success:
+                self.estimation_success = True
+                if self.zero_mean:
+                    self.parameters = type(self).Parameters(
+                        0.0, *list(opt.x), loglikelihood=-opt.fun
+                    )
+                else:
+                    self.parameters = type(self).Parameters(
+                        *list(opt.x), loglikelihood=-opt.fun
+                    )
+                self.resids = self.returns - self.parameters.mu
+                # The last evaluation by the optimizer needs not be at opt.x
+                self.sigma2 = self.compute_variance(
+                    opt.x if self.zero_mean else opt.x[1:],
+                    self.resids,
+                    self.backcast_value,
+                    self.var_bounds,
+                )
+
+        return self.parameters
+
+    @staticmethod
+    def compute_variance(
+        params: List[float],
+        resids: np.ndarray,
+        backcast: float,
+        var_bounds: np.ndarray,
+    ) -> np.ndarray:
+        """Computes the variances conditional on given parameters
+
+        Args:
+            params (List[float]): [omega, alpha, gamma, beta]
+            resids (np.ndarray): residuals from mean equation
+            backcast (float): backcast value
+            var_bounds (np.ndarray): variance bounds
+
+        Returns:
+            np.ndarray: conditional variance
+        """
+        # The extension reads the arrays as contiguous float64
+        resids = np.ascontiguousarray(resids, dtype=np.float64)
+        var_bounds = np.ascontiguousarray(var_bounds, dtype=np.float64)
+        if USE_CPP_EXTENSION:
+            return ext.compute_gjrgarch_variance(params, resids, backcast, var_bounds)
+        # fmt: off
+        omega, alpha, gamma, beta = params
+        sigma2 = np.zeros_like(resids)
+        sigma2[0] = omega + (alpha + gamma/2 + beta) * backcast
+        for t in range(1, len(resids)):
+            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
+            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
+            sigma2[t] = GJRGARCHModel.bounds_check(sigma2[t], var_bounds[t])
+        return sigma2
+
+    @staticmethod
+    def forecast_variance(
+        params: Parameters,
+        resids: np.ndarray,
+        initial_variance: float,
+    ) -> np.ndarray:
+        """Forecast the variances conditional on given parameters and residuals.
+
+        Args:
+            params (Parameters): :class:`frds.algorithms.GJRGARCHModel.Parameters`
+            resids (np.ndarray): residuals to use
+            initial_variance (float): starting value of variance forecasts
+
+        Returns:
+            np.ndarray: conditional variance
+        """
+        # fmt: off
+        omega, alpha, gamma, beta = params.omega, params.alpha, params.gamma, params.beta
+        sigma2 = np.zeros_like(resids, dtype=np.float64)
+        sigma2[0] = initial_variance
+        for t in range(1, len(resids)):
+            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
+            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
+        return sigma2[1:]
+
+    def starting_values(self, resids: np.ndarray) -> List[float]:
+        """Finds the optimal initial values for the volatility model via a grid
+        search. For varying target persistence and alpha values, return the
+        combination of alpha and beta that gives the highest loglikelihood.
+
+        Args:
+            resids (np.ndarray): residuals from the mean model
+
+        Returns:
+            List[float]: [omega, alpha, gamma, beta]
+        """
+        # Candidate target persistence - we don't have a prior knowledge here
+        persistence_grid = [0.5, 0.7, 0.9, 0.98]
+        # Candidate alpha values
+        alpha_grid = [0.01, 0.05, 0.1, 0.2]
+        gamma_grid = alpha_grid
+        # Sample variance
+        var = self.returns.var()
+        # Backcast initial value for the volaility process
+        var_bounds = self.variance_bounds(resids)
+        backcast = self.backcast(resids)
+        initial_params = []
+        max_likelihood = -np.inf
+        # fmt: off
+        for alpha, gamma, p in itertools.product(*[alpha_grid, gamma_grid, persistence_grid]):
+            # Note that (alpha+beta) is the "persistence"
+            beta = p - alpha - gamma/2
+            # Note that the unconditional variance is omega/(1-persistence).
+            # As we are guessing the initial value, we use the sample variance
+            # as the unconditional variance to guess the omega value.
+            omega = var * (1 - p)
+            params = [omega, alpha, gamma, beta]
+            sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
+            likelihood = self.loglikelihood(resids, sigma2)
+            if likelihood > max_likelihood:
+                max_likelihood = likelihood
+                initial_params = params
+        return initial_params
+
+
+if __name__ == "__main__":
+    import pandas as pd
+    from pprint import pprint
+
+    df = pd.read_stata(
+        "https://www.stata-press.com/data/r18/stocks.dta", convert_dates=["date"]
+    )
+    df.set_index("date", inplace=True)
+    # Scale returns to percentage returns for better optimization results
+    returns = df["nissan"].to_numpy() * 100
+
+    g = GARCHModel(returns)
+    res = g.fit()
+    pprint(res)
+
+    gjr = GJRGARCHModel(returns)
+    res = gjr.fit()
+    pprint(res)
+
+    from arch import arch_model
+
+    m = arch_model(returns, p=1, o=1, q=1)
+    print(m.fit(disp=False))
-- 
2.43.0


From 07508931c154210808c8e64610aeb854e3171a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:47 +0000
Subject: [PATCH 21/22] fix: the single-cohort solution does not write to the
 caller's parameters

---
 src/frds/measures/modified_merton/mod_single_cohort_solution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frds/measures/modified_merton/mod_single_cohort_solution.py b/src/frds/measures/modified_merton/mod_single_cohort_solution.py
index e7c5ee3..8be7db2 100644
--- a/src/frds/measures/modified_merton/mod_single_cohort_solution.py
+++ b/src/frds/measures/modified_merton/mod_single_cohort_solution.py
@@ -5,6 +5,7 @@ from frds.measures.modified_merton.mod_single_cohort_computation import (
 
 def mod_single_cohort_solution(b, param, N, Nsim2, E, sigE):
     fs = b[0]
+    param = list(param)
     param[2] = b[1]
 
     # fmt: off
-- 
2.43.0


From 8ea1e0eeb9426724bc1aee17c63cd70ab2261ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:48 +0000
Subject: [PATCH 22/22] fix: every access of StockReturns.stocks_us gives a
 frame of its own

What one caller changed in the returned frame (for example scaling it to percent
in place) showed up in every later access.
---
 src/frds/datasets/_stocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/datasets/_stocks.py b/src/frds/datasets/_stocks.py
index 2a210ff..a60998d 100644
--- a/src/frds/datasets/_stocks.py
+++ b/src/frds/datasets/_stocks.py
@@ -38,7 +38,7 @@ class _StockReturns(metaclass=SingletonMeta):
         path = f"{os.path.join(_current_directory, 'stocks_us.csv.zip')}"
         if self._stocks_us is None:
             self._stocks_us = pd.read_csv(path, index_col=['Date'], parse_dates=['Date'])
-        return self._stocks_us
+        return self._stocks_us.copy()
 
 
 StockReturns = _StockReturns()
-- 
2.43.0

