From fa1c1c34dbb78ebed85578cf9aaa829920f2eccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 01/29] fix: pass the A-SOH distribution as an iterable when
 assembling the dual state

---
 moirae/estimators/online/dual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/dual.py b/moirae/estimators/online/dual.py
index 1ab41d7..f42a32c 100644
--- a/moirae/estimators/online/dual.py
+++ b/moirae/estimators/online/dual.py
@@ -90,7 +90,7 @@ class DualEstimator(OnlineEstimator):
     def state(self) -> MultivariateRandomDistribution:
         # Get converted states
         transient_converted, asoh_converted = self._get_converted_states()
-        return transient_converted.combine_with(asoh_converted)
+        return transient_converted.combine_with((asoh_converted,))
 
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
         # Get converted states
-- 
2.43.0


From f8727d68cb18693441184a37f16977c6ba22c0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 02/29] fix: restrict the dual estimate to the estimated A-SOH
 parameters

---
 moirae/estimators/online/dual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/dual.py b/moirae/estimators/online/dual.py
index f42a32c..8cf8e69 100644
--- a/moirae/estimators/online/dual.py
+++ b/moirae/estimators/online/dual.py
@@ -98,7 +98,7 @@ class DualEstimator(OnlineEstimator):
 
         # Translate to model object
         estimated_transient = self.transients.make_copy(values=transient_converted.get_mean())
-        estimated_asoh = self.asoh.make_copy(values=asoh_converted.get_mean())
+        estimated_asoh = self.asoh.make_copy(values=asoh_converted.get_mean(), names=self.asoh_wrapper.asoh_inputs)
         return estimated_transient, estimated_asoh
 
     def step(self, inputs: InputQuantities, measurements: OutputQuantities) -> \
-- 
2.43.0


From 4f8a557a002a10870d8ae20b95ed509d057d7e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 03/29] fix: report the joint state in model coordinates

---
 moirae/estimators/online/joint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/estimators/online/joint.py b/moirae/estimators/online/joint.py
index 5614b83..14f6fea 100644
--- a/moirae/estimators/online/joint.py
+++ b/moirae/estimators/online/joint.py
@@ -42,10 +42,10 @@ class JointEstimator(OnlineEstimator):
 
     @property
     def state(self) -> MultivariateRandomDistribution:
-        return self.filter.hidden.model_copy(deep=True)
+        return self.filter.hidden.convert(conversion_operator=self.joint_model.hidden_conversion)
 
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
-        joint_state = self.state
+        joint_state = self.filter.hidden.model_copy(deep=True)  # Still in filter coordinates
         estimated_asoh, estimated_transient = self.joint_model.create_cell_model_inputs(
             hidden_states=np.atleast_2d(joint_state.get_mean()))
         return estimated_transient, estimated_asoh
-- 
2.43.0


From 63e16269a141566c6b435ead98a356d726d2d7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 04/29] fix: use the transient or A-SOH process noise when only
 one is provided

---
 moirae/estimators/online/joint.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/moirae/estimators/online/joint.py b/moirae/estimators/online/joint.py
index 14f6fea..6e4f56c 100644
--- a/moirae/estimators/online/joint.py
+++ b/moirae/estimators/online/joint.py
@@ -195,7 +195,12 @@ class JointEstimator(OnlineEstimator):
         else:
             joint_hidden_covariance = covariance_joint
         if joint_covariance_process_noise is None:
-            if (transient_covariance_process_noise is not None) and (asoh_covariance_process_noise is not None):
+            if (transient_covariance_process_noise is not None) or (asoh_covariance_process_noise is not None):
+                # Employ the default noise level of the filter for whichever is not provided
+                if transient_covariance_process_noise is None:
+                    transient_covariance_process_noise = 1.0e-08 * np.eye(joint_wrapper.num_transients)
+                if asoh_covariance_process_noise is None:
+                    asoh_covariance_process_noise = 1.0e-08 * np.eye(joint_wrapper.num_asoh)
                 joint_covariance_process_noise = block_diag(transient_covariance_process_noise,
                                                             asoh_covariance_process_noise)
         # Preparing controls
-- 
2.43.0


From 54bd2185ecee8e3cf668ab85d8bc46a8797ad198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 05/29] fix: build the polar factor from a diagonal matrix of
 singular values

---
 moirae/estimators/online/filters/kalman/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/filters/kalman/utils.py b/moirae/estimators/online/filters/kalman/utils.py
index 6b07c14..d77d09b 100644
--- a/moirae/estimators/online/filters/kalman/utils.py
+++ b/moirae/estimators/online/filters/kalman/utils.py
@@ -37,7 +37,7 @@ def enforce_positive_semi_defiteness(Sig: np.ndarray) -> np.ndarray:
     """
     # Perform singular value decomposition
     _, S_diagonal, V_complex_conjugate = np.linalg.svd(Sig)
-    H_matrix = np.matmul(V_complex_conjugate.T, np.matmul(S_diagonal, V_complex_conjugate))
+    H_matrix = np.matmul(V_complex_conjugate.T, np.matmul(np.diag(S_diagonal), V_complex_conjugate))
     return (Sig + Sig.T + H_matrix + H_matrix.T) / 4
 
 
-- 
2.43.0


From fd3c32fc7ca2f7b677089650fc8888fa1e6b629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 06/29] fix: do not give model arguments to the correction step
 of the UKF

---
 moirae/estimators/online/filters/kalman/unscented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/filters/kalman/unscented.py b/moirae/estimators/online/filters/kalman/unscented.py
index 53df156..0971f07 100644
--- a/moirae/estimators/online/filters/kalman/unscented.py
+++ b/moirae/estimators/online/filters/kalman/unscented.py
@@ -181,7 +181,7 @@ class UnscentedKalmanFilter(BaseFilter):
         # Step 1: perform estimation update
         x_k_minus, y_k, cov_xy = self.estimation_update(sigma_pts=sigma_pts, new_controls=new_controls, **kwargs)
         # Step 2: correction step, adjust hidden states based on new measurement
-        self.correction_update(x_k_minus=x_k_minus, y_hat=y_k, cov_xy=cov_xy, y=measurements, **kwargs)
+        self.correction_update(x_k_minus=x_k_minus, y_hat=y_k, cov_xy=cov_xy, y=measurements)
         # Don't forget to update the internal control!
         self.controls = new_controls.model_copy(deep=True)
         # Return
-- 
2.43.0


From 6ef6483651539662b1b9108530f167fe65dbc758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 07/29] fix: store copies of the templates in the model
 wrappers

---
 moirae/estimators/online/utils/model.py | 808 ++++++++++++------------
 1 file changed, 404 insertions(+), 404 deletions(-)

diff --git a/moirae/estimators/online/utils/model.py b/moirae/estimators/online/utils/model.py
index 634f924..a0ba6e4 100644
--- a/moirae/estimators/online/utils/model.py
+++ b/moirae/estimators/online/utils/model.py
@@ -1,404 +1,404 @@
-"""Tools to reduce operations on :class:`~moirae.models.base.CellModel` to functions which act only on
-widely-used Python types, such as Numpy Arrays."""
-import numpy as np
-from typing import Tuple, Optional, Union
-
-from moirae.estimators.online.filters.base import ModelWrapper, ModelWrapperConverters
-from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
-from moirae.models.base import InputQuantities, GeneralContainer, HealthVariable, CellModel, DegradationModel
-from moirae.models.utils import NoDegradation
-
-
-def convert_vals_model_to_filter(
-        model_quantities: GeneralContainer,
-        uncertainty_matrix: Optional[np.ndarray] = None) -> Union[DeltaDistribution, MultivariateGaussian]:
-    """
-    Function that converts :class:`~moirae.model.base.GeneralContainer` object to filter-related quantities.
-    If uncertainty is provided, assumes a :class:`~moirae.estimators.online.filters.distributions.MultivariateGaussian`.
-    Otherwise, assumes :class:`~moirae.estimators.online.filters.distributions.DeltaDistribution`.
-
-    Args:
-        model_quantities: model-related object to be converted into filter-related object
-        uncertainty_matrix: 2D array to be used as covariance matrix; if not provided, returns DeltaDistribution
-
-    Returns:
-        a corresponding MultivariateRandomDistribution (either Gaussian or Delta)
-    """
-    if uncertainty_matrix is None:
-        return DeltaDistribution(mean=model_quantities.to_numpy().flatten())
-    return MultivariateGaussian(mean=model_quantities.to_numpy().flatten(), covariance=uncertainty_matrix)
-
-
-class BaseCellWrapper(ModelWrapper):
-    """
-    Base link between the :class:`~moirae.model.base.CellModel` and the numpy-only interface of
-    the filter implementations.
-
-    Args:
-        cell_model: Model which defines the physics of the system being modeled
-        asoh: Values for all state of health parameters of the model
-        transients: Current values of the transient state of the system
-        inputs: Example input values for the model
-        converters: set of converters to be used to translate between filter-coordinate system and model
-            coordinate-system
-    """
-
-    cell_model: CellModel
-    """Cell model underpinning the update functions"""
-    asoh: HealthVariable
-    """ASOH values passed to each call of the cell model"""
-    transients: GeneralContainer
-    """Transient states used for the inputs of the model"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()):
-
-        # Give converters to parent class
-        super().__init__(**converters)
-
-        # Store the ASOH and transient state, making sure they are not batched
-        if asoh.batch_size > 1:
-            raise ValueError(f'The batch size of the ASOH must be 1. Found: {asoh.batch_size}')
-        if transients.batch_size > 1:
-            raise ValueError(f'The batch size of the transient state must be 1. Found: {transients.batch_size}')
-
-        self.transients = transients
-        self.cell_model = cell_model
-        self.asoh = asoh
-        self.inputs = inputs
-
-        # Capture the shape of the outputs
-        self._num_output_dimensions = self.cell_model.calculate_terminal_voltage(new_inputs=self.inputs,
-                                                                                 transient_state=self.transients,
-                                                                                 asoh=self.asoh).to_numpy().shape[1]
-
-    @property
-    def num_output_dimensions(self) -> int:
-        return self._num_output_dimensions
-
-
-class CellModelWrapper(BaseCellWrapper):
-    """
-    This particular wrapper does not touch the A-SOH, but only uses it for predictions.
-    """
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
-        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
-
-        self.num_transients = transients.to_numpy().shape[1]
-
-    @property
-    def num_hidden_dimensions(self) -> int:
-        return self.num_transients
-
-    def update_hidden_states(self,
-                             hidden_states: np.ndarray,
-                             previous_controls: np.ndarray,
-                             new_controls: np.ndarray) -> np.ndarray:
-        # Convert objects
-        transients = self.transients.make_copy(
-            values=self.hidden_conversion.transform_samples(samples=hidden_states))
-        previous_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=previous_controls))
-        new_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=new_controls))
-
-        # Update transients
-        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
-                                                                new_inputs=new_inputs,
-                                                                transient_state=transients,
-                                                                asoh=self.asoh)
-
-        # Convert back to filter language
-        new_transients = self.hidden_conversion.inverse_transform_samples(transformed_samples=new_transients.to_numpy())
-
-        return new_transients
-
-    def predict_measurement(self, hidden_states: np.ndarray, controls: np.ndarray) -> np.ndarray:
-        """
-        Function that takes a numpy representation of the transient state and of the controls, and predicts measurements
-        from it
-        """
-        # Convert objects
-        transients = self.transients.make_copy(
-            values=self.hidden_conversion.transform_samples(samples=hidden_states))
-        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
-
-        # Get output
-        measurements = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
-                                                                  transient_state=transients,
-                                                                  asoh=self.asoh)
-
-        # Convert back to filter lingo
-        measurements = self.output_conversion.inverse_transform_samples(transformed_samples=measurements.to_numpy())
-
-        return measurements
-
-
-class DegradationModelWrapper(BaseCellWrapper):
-    """
-    Link between A-SOH degradation models and the numpy-only interface of the
-    :class:`~moirae.estimators.online.filters.base.BaseFilter`. It provides the model wrapper need for dual estimation
-    frameworks
-
-    It takes an additional argument compared to the :class:`moirae.estimators.online.utils.model.BaseCellWrapper`, as it
-    needs to know the degrataion model being used. If none is passed, defaults to dummy degradation.
-
-    Args:
-        cell_model: Model which defines the physics of the system being modeled
-        asoh: Values for all state of health parameters of the model
-        transients: Current values of the transient state of the system
-        inputs: Example input values for the model
-        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
-        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
-        converters: set of converters to be used to translate between filter-coordinate system and model
-            coordinate-system
-    """
-
-    asoh_inputs: Tuple[str]
-    """Names of the parameters from the ASOH which are used as inputs to the model"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 asoh_inputs: Optional[Tuple[str]] = None,
-                 degradation_model: DegradationModel = NoDegradation(),
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
-
-        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
-
-        # Store the information about the identity of variables in the transient state
-        if asoh_inputs is None:
-            asoh_inputs = asoh.updatable_names
-        self.asoh_inputs = asoh_inputs
-        self.num_transients = transients.to_numpy().shape[1]
-        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
-        # Storing "previous inputs" just in case a call to `predict_measurement` is made prematurely
-        self._previous_inputs = inputs.model_copy(deep=True)
-        # Store degradation model
-        self.deg_model = degradation_model
-
-    @property
-    def num_hidden_dimensions(self) -> int:
-        return self.num_asoh
-
-    def _convert_hidden_to_asoh(self, hidden_states: np.ndarray) -> HealthVariable:
-        """
-        Helper function to take hidden states and convert them to A-SOH object to be given to degradation model
-        """
-        asoh = self.asoh.make_copy(values=self.hidden_conversion.transform_samples(samples=hidden_states),
-                                   names=self.asoh_inputs)
-        return asoh
-
-    def update_hidden_states(self,
-                             hidden_states: np.ndarray,
-                             previous_controls: np.ndarray,
-                             new_controls: np.ndarray) -> np.ndarray:
-        """
-        Function that takes a numpy representation of the A-SOH and degrades it using the degradation model and the
-        previous and new controls. If the degradation model needs information for further in the past, it is responsible
-        for keeping track of that. The degration model will also be provided the current estimate of the transient
-        vector.
-        """
-        # Remember that, during this step, we should also store the previous controls so that the transient vector can
-        # be propagated through the hidden states in the predict measurement step
-        previous_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=previous_controls))
-        self._previous_inputs = previous_inputs
-
-        # Convert to A-SOH object
-        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
-        # Convert new controls
-        new_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=new_controls))
-        # Compute measurements
-        new_measurements = self.cell_model.calculate_terminal_voltage(new_inputs=new_inputs,
-                                                                      transient_state=self.transients,
-                                                                      asoh=asoh)
-        # Degrade A-SOH
-        deg_asoh = self.deg_model.update_asoh(previous_asoh=asoh,
-                                              new_inputs=new_inputs,
-                                              new_transients=self.transients,
-                                              new_measurements=new_measurements)
-
-        return self.hidden_conversion.inverse_transform_samples(
-            transformed_samples=deg_asoh.get_parameters(names=self.asoh_inputs))
-
-    def predict_measurement(self,
-                            hidden_states: np.ndarray,
-                            controls: np.ndarray) -> np.ndarray:
-        """
-        Function that takes the numpy-representation of the estimated of A-SOH and computes predictions of the
-        measurement. Recall that, for that, we first need to propagate the transients through the A-SOH estimates
-        """
-        # First, transform the controls into ECM inputs
-        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
-
-        # Do the same for the A-SOH
-        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
-
-        # Now, propagate the transients through the A-SOH
-        propagated_transients = self.cell_model.update_transient_state(previous_inputs=self._previous_inputs,
-                                                                       new_inputs=inputs,
-                                                                       transient_state=self.transients,
-                                                                       asoh=asoh)
-
-        # Finally, compute outputs
-        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
-                                                             transient_state=propagated_transients,
-                                                             asoh=asoh)
-
-        # Convert outpus to filter lingo
-        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
-        return outputs
-
-
-class JointCellModelWrapper(BaseCellWrapper):
-    """Interface used when the hidden state used by a filter includes the transient states.
-
-    Create the interface by defining
-        - Which portions of the ASOH are used as inputs to function
-        - Values for the ASOH parameters that remain fixed
-        - An example transient state and input to be passed to the function which will be used as a template
-
-    The resultant function will take numpy arrays as inputs and produce numpy arrays as outputs
-
-    Args:
-        cell_model: Model which defines the physics of the system being modeled
-        asoh: Values for all state of health parameters of the model
-        transients: Current values of the transient state of the system
-        inputs: Example input values for the model
-        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
-        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
-        converters: set of converters to be used to translate between filter-coordinate system and model
-            coordinate-system
-    """
-
-    asoh_inputs: Tuple[str]
-    """Names of the parameters from the ASOH which are used as inputs to the model"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 asoh_inputs: Optional[Tuple[str]] = None,
-                 degradation_model: DegradationModel = NoDegradation(),
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
-        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
-
-        # Store the information about the identity of variables in the transient state
-        if asoh_inputs is None:
-            asoh_inputs = asoh.updatable_names
-        self.asoh_inputs = asoh_inputs
-        self.num_transients = transients.to_numpy().shape[1]
-        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
-        self.deg_model = degradation_model
-
-    @property
-    def num_hidden_dimensions(self) -> int:
-        return self.num_transients + self.num_asoh
-
-    def create_hidden_state(self, asoh: HealthVariable, transients: GeneralContainer) -> np.ndarray:
-        """Transform the state of health and transients states (quantities used by CellModel)
-        into the "hidden state" vector used by the actual filter
-
-        Args:
-            asoh: Values of the ASOH parameter
-            transients: Values of the transient states
-        Returns:
-            A hidden state vector ready for use in a filter
-        """
-
-        # Get raw values
-        trans_raw = transients.to_numpy()
-        asoh_raw = asoh.get_parameters(names=self.asoh_inputs)
-
-        # Concatenate
-        joint_raw = np.concatenate([trans_raw, asoh_raw], axis=1)
-
-        # Convert to filter
-        joint = self.hidden_conversion.inverse_transform_samples(transformed_samples=joint_raw)
-
-        return joint
-
-    def create_cell_model_inputs(self, hidden_states: np.ndarray) -> Tuple[HealthVariable, GeneralContainer]:
-        """Convert the hidden states into the forms used by CellModel
-
-        Args:
-            hidden_states: Hidden states as used by the estimator
-        Returns:
-            - ASOH with values from the hidden states
-            - Transients state from the hidden states
-        """
-
-        # Get raw values
-        joint_raw = self.hidden_conversion.transform_samples(samples=hidden_states)
-
-        # Update any parameters for the transient state
-        my_transients = self.transients.make_copy(values=joint_raw[:, :self.num_transients])
-
-        # Update the ASOH accordingly
-        my_asoh = self.asoh.make_copy(values=joint_raw[:, self.num_transients:], names=self.asoh_inputs)
-
-        return my_asoh, my_transients
-
-    def update_hidden_states(self,
-                             hidden_states: np.ndarray,
-                             previous_controls: np.ndarray,
-                             new_controls: np.ndarray) -> np.ndarray:
-        # Transmute the controls and hidden state into the form required for the CellModel
-        previous_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=previous_controls))
-        new_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=new_controls))
-
-        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
-
-        # Produce an updated estimate for the transient states, hold the ASOH parameters constant
-        output = self.hidden_conversion.transform_samples(samples=hidden_states).copy()
-        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
-                                                                new_inputs=new_inputs,
-                                                                transient_state=my_transients,
-                                                                asoh=my_asoh)
-
-        # Let's also degrade the A-SOH
-        # We need the measurement
-        new_measurement = self.cell_model.calculate_terminal_voltage(new_inputs=previous_inputs,
-                                                                     transient_state=my_transients,
-                                                                     asoh=my_asoh)
-        deg_asoh = self.deg_model.update_asoh(previous_asoh=my_asoh,
-                                              new_inputs=previous_inputs,
-                                              new_transients=my_transients,
-                                              new_measurements=new_measurement)
-
-        # Convert this back to filter lingo
-        output[:, :self.num_transients] = new_transients.to_numpy()
-        output[:, self.num_transients:] = deg_asoh.get_parameters(names=self.asoh_inputs)
-        output = self.hidden_conversion.inverse_transform_samples(transformed_samples=output)
-        return output
-
-    def predict_measurement(self,
-                            hidden_states: np.ndarray,
-                            controls: np.ndarray) -> np.ndarray:
-        # First, transform the controls into ECM inputs
-        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
-
-        # Now, iterate through hidden states to compute terminal voltage
-        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
-        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
-                                                             transient_state=my_transients,
-                                                             asoh=my_asoh)
-        # Convert to filter lingo
-        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
-        return outputs
+"""Tools to reduce operations on :class:`~moirae.models.base.CellModel` to functions which act only on
+widely-used Python types, such as Numpy Arrays."""
+import numpy as np
+from typing import Tuple, Optional, Union
+
+from moirae.estimators.online.filters.base import ModelWrapper, ModelWrapperConverters
+from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
+from moirae.models.base import InputQuantities, GeneralContainer, HealthVariable, CellModel, DegradationModel
+from moirae.models.utils import NoDegradation
+
+
+def convert_vals_model_to_filter(
+        model_quantities: GeneralContainer,
+        uncertainty_matrix: Optional[np.ndarray] = None) -> Union[DeltaDistribution, MultivariateGaussian]:
+    """
+    Function that converts :class:`~moirae.model.base.GeneralContainer` object to filter-related quantities.
+    If uncertainty is provided, assumes a :class:`~moirae.estimators.online.filters.distributions.MultivariateGaussian`.
+    Otherwise, assumes :class:`~moirae.estimators.online.filters.distributions.DeltaDistribution`.
+
+    Args:
+        model_quantities: model-related object to be converted into filter-related object
+        uncertainty_matrix: 2D array to be used as covariance matrix; if not provided, returns DeltaDistribution
+
+    Returns:
+        a corresponding MultivariateRandomDistribution (either Gaussian or Delta)
+    """
+    if uncertainty_matrix is None:
+        return DeltaDistribution(mean=model_quantities.to_numpy().flatten())
+    return MultivariateGaussian(mean=model_quantities.to_numpy().flatten(), covariance=uncertainty_matrix)
+
+
+class BaseCellWrapper(ModelWrapper):
+    """
+    Base link between the :class:`~moirae.model.base.CellModel` and the numpy-only interface of
+    the filter implementations.
+
+    Args:
+        cell_model: Model which defines the physics of the system being modeled
+        asoh: Values for all state of health parameters of the model
+        transients: Current values of the transient state of the system
+        inputs: Example input values for the model
+        converters: set of converters to be used to translate between filter-coordinate system and model
+            coordinate-system
+    """
+
+    cell_model: CellModel
+    """Cell model underpinning the update functions"""
+    asoh: HealthVariable
+    """ASOH values passed to each call of the cell model"""
+    transients: GeneralContainer
+    """Transient states used for the inputs of the model"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()):
+
+        # Give converters to parent class
+        super().__init__(**converters)
+
+        # Store the ASOH and transient state, making sure they are not batched
+        if asoh.batch_size > 1:
+            raise ValueError(f'The batch size of the ASOH must be 1. Found: {asoh.batch_size}')
+        if transients.batch_size > 1:
+            raise ValueError(f'The batch size of the transient state must be 1. Found: {transients.batch_size}')
+
+        self.transients = transients.model_copy(deep=True)
+        self.cell_model = cell_model
+        self.asoh = asoh.model_copy(deep=True)
+        self.inputs = inputs.model_copy(deep=True)
+
+        # Capture the shape of the outputs
+        self._num_output_dimensions = self.cell_model.calculate_terminal_voltage(new_inputs=self.inputs,
+                                                                                 transient_state=self.transients,
+                                                                                 asoh=self.asoh).to_numpy().shape[1]
+
+    @property
+    def num_output_dimensions(self) -> int:
+        return self._num_output_dimensions
+
+
+class CellModelWrapper(BaseCellWrapper):
+    """
+    This particular wrapper does not touch the A-SOH, but only uses it for predictions.
+    """
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
+        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
+
+        self.num_transients = transients.to_numpy().shape[1]
+
+    @property
+    def num_hidden_dimensions(self) -> int:
+        return self.num_transients
+
+    def update_hidden_states(self,
+                             hidden_states: np.ndarray,
+                             previous_controls: np.ndarray,
+                             new_controls: np.ndarray) -> np.ndarray:
+        # Convert objects
+        transients = self.transients.make_copy(
+            values=self.hidden_conversion.transform_samples(samples=hidden_states))
+        previous_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=previous_controls))
+        new_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=new_controls))
+
+        # Update transients
+        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
+                                                                new_inputs=new_inputs,
+                                                                transient_state=transients,
+                                                                asoh=self.asoh)
+
+        # Convert back to filter language
+        new_transients = self.hidden_conversion.inverse_transform_samples(transformed_samples=new_transients.to_numpy())
+
+        return new_transients
+
+    def predict_measurement(self, hidden_states: np.ndarray, controls: np.ndarray) -> np.ndarray:
+        """
+        Function that takes a numpy representation of the transient state and of the controls, and predicts measurements
+        from it
+        """
+        # Convert objects
+        transients = self.transients.make_copy(
+            values=self.hidden_conversion.transform_samples(samples=hidden_states))
+        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
+
+        # Get output
+        measurements = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
+                                                                  transient_state=transients,
+                                                                  asoh=self.asoh)
+
+        # Convert back to filter lingo
+        measurements = self.output_conversion.inverse_transform_samples(transformed_samples=measurements.to_numpy())
+
+        return measurements
+
+
+class DegradationModelWrapper(BaseCellWrapper):
+    """
+    Link between A-SOH degradation models and the numpy-only interface of the
+    :class:`~moirae.estimators.online.filters.base.BaseFilter`. It provides the model wrapper need for dual estimation
+    frameworks
+
+    It takes an additional argument compared to the :class:`moirae.estimators.online.utils.model.BaseCellWrapper`, as it
+    needs to know the degrataion model being used. If none is passed, defaults to dummy degradation.
+
+    Args:
+        cell_model: Model which defines the physics of the system being modeled
+        asoh: Values for all state of health parameters of the model
+        transients: Current values of the transient state of the system
+        inputs: Example input values for the model
+        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
+        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
+        converters: set of converters to be used to translate between filter-coordinate system and model
+            coordinate-system
+    """
+
+    asoh_inputs: Tuple[str]
+    """Names of the parameters from the ASOH which are used as inputs to the model"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 asoh_inputs: Optional[Tuple[str]] = None,
+                 degradation_model: DegradationModel = NoDegradation(),
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
+
+        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
+
+        # Store the information about the identity of variables in the transient state
+        if asoh_inputs is None:
+            asoh_inputs = asoh.updatable_names
+        self.asoh_inputs = asoh_inputs
+        self.num_transients = transients.to_numpy().shape[1]
+        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
+        # Storing "previous inputs" just in case a call to `predict_measurement` is made prematurely
+        self._previous_inputs = inputs.model_copy(deep=True)
+        # Store degradation model
+        self.deg_model = degradation_model
+
+    @property
+    def num_hidden_dimensions(self) -> int:
+        return self.num_asoh
+
+    def _convert_hidden_to_asoh(self, hidden_states: np.ndarray) -> HealthVariable:
+        """
+        Helper function to take hidden states and convert them to A-SOH object to be given to degradation model
+        """
+        asoh = self.asoh.make_copy(values=self.hidden_conversion.transform_samples(samples=hidden_states),
+                                   names=self.asoh_inputs)
+        return asoh
+
+    def update_hidden_states(self,
+                             hidden_states: np.ndarray,
+                             previous_controls: np.ndarray,
+                             new_controls: np.ndarray) -> np.ndarray:
+        """
+        Function that takes a numpy representation of the A-SOH and degrades it using the degradation model and the
+        previous and new controls. If the degradation model needs information for further in the past, it is responsible
+        for keeping track of that. The degration model will also be provided the current estimate of the transient
+        vector.
+        """
+        # Remember that, during this step, we should also store the previous controls so that the transient vector can
+        # be propagated through the hidden states in the predict measurement step
+        previous_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=previous_controls))
+        self._previous_inputs = previous_inputs
+
+        # Convert to A-SOH object
+        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
+        # Convert new controls
+        new_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=new_controls))
+        # Compute measurements
+        new_measurements = self.cell_model.calculate_terminal_voltage(new_inputs=new_inputs,
+                                                                      transient_state=self.transients,
+                                                                      asoh=asoh)
+        # Degrade A-SOH
+        deg_asoh = self.deg_model.update_asoh(previous_asoh=asoh,
+                                              new_inputs=new_inputs,
+                                              new_transients=self.transients,
+                                              new_measurements=new_measurements)
+
+        return self.hidden_conversion.inverse_transform_samples(
+            transformed_samples=deg_asoh.get_parameters(names=self.asoh_inputs))
+
+    def predict_measurement(self,
+                            hidden_states: np.ndarray,
+                            controls: np.ndarray) -> np.ndarray:
+        """
+        Function that takes the numpy-representation of the estimated of A-SOH and computes predictions of the
+        measurement. Recall that, for that, we first need to propagate the transients through the A-SOH estimates
+        """
+        # First, transform the controls into ECM inputs
+        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
+
+        # Do the same for the A-SOH
+        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
+
+        # Now, propagate the transients through the A-SOH
+        propagated_transients = self.cell_model.update_transient_state(previous_inputs=self._previous_inputs,
+                                                                       new_inputs=inputs,
+                                                                       transient_state=self.transients,
+                                                                       asoh=asoh)
+
+        # Finally, compute outputs
+        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
+                                                             transient_state=propagated_transients,
+                                                             asoh=asoh)
+
+        # Convert outpus to filter lingo
+        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
+        return outputs
+
+
+class JointCellModelWrapper(BaseCellWrapper):
+    """Interface used when the hidden state used by a filter includes the transient states.
+
+    Create the interface by defining
+        - Which portions of the ASOH are used as inputs to function
+        - Values for the ASOH parameters that remain fixed
+        - An example transient state and input to be passed to the function which will be used as a template
+
+    The resultant function will take numpy arrays as inputs and produce numpy arrays as outputs
+
+    Args:
+        cell_model: Model which defines the physics of the system being modeled
+        asoh: Values for all state of health parameters of the model
+        transients: Current values of the transient state of the system
+        inputs: Example input values for the model
+        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
+        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
+        converters: set of converters to be used to translate between filter-coordinate system and model
+            coordinate-system
+    """
+
+    asoh_inputs: Tuple[str]
+    """Names of the parameters from the ASOH which are used as inputs to the model"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 asoh_inputs: Optional[Tuple[str]] = None,
+                 degradation_model: DegradationModel = NoDegradation(),
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
+        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
+
+        # Store the information about the identity of variables in the transient state
+        if asoh_inputs is None:
+            asoh_inputs = asoh.updatable_names
+        self.asoh_inputs = asoh_inputs
+        self.num_transients = transients.to_numpy().shape[1]
+        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
+        self.deg_model = degradation_model
+
+    @property
+    def num_hidden_dimensions(self) -> int:
+        return self.num_transients + self.num_asoh
+
+    def create_hidden_state(self, asoh: HealthVariable, transients: GeneralContainer) -> np.ndarray:
+        """Transform the state of health and transients states (quantities used by CellModel)
+        into the "hidden state" vector used by the actual filter
+
+        Args:
+            asoh: Values of the ASOH parameter
+            transients: Values of the transient states
+        Returns:
+            A hidden state vector ready for use in a filter
+        """
+
+        # Get raw values
+        trans_raw = transients.to_numpy()
+        asoh_raw = asoh.get_parameters(names=self.asoh_inputs)
+
+        # Concatenate
+        joint_raw = np.concatenate([trans_raw, asoh_raw], axis=1)
+
+        # Convert to filter
+        joint = self.hidden_conversion.inverse_transform_samples(transformed_samples=joint_raw)
+
+        return joint
+
+    def create_cell_model_inputs(self, hidden_states: np.ndarray) -> Tuple[HealthVariable, GeneralContainer]:
+        """Convert the hidden states into the forms used by CellModel
+
+        Args:
+            hidden_states: Hidden states as used by the estimator
+        Returns:
+            - ASOH with values from the hidden states
+            - Transients state from the hidden states
+        """
+
+        # Get raw values
+        joint_raw = self.hidden_conversion.transform_samples(samples=hidden_states)
+
+        # Update any parameters for the transient state
+        my_transients = self.transients.make_copy(values=joint_raw[:, :self.num_transients])
+
+        # Update the ASOH accordingly
+        my_asoh = self.asoh.make_copy(values=joint_raw[:, self.num_transients:], names=self.asoh_inputs)
+
+        return my_asoh, my_transients
+
+    def update_hidden_states(self,
+                             hidden_states: np.ndarray,
+                             previous_controls: np.ndarray,
+                             new_controls: np.ndarray) -> np.ndarray:
+        # Transmute the controls and hidden state into the form required for the CellModel
+        previous_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=previous_controls))
+        new_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=new_controls))
+
+        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
+
+        # Produce an updated estimate for the transient states, hold the ASOH parameters constant
+        output = self.hidden_conversion.transform_samples(samples=hidden_states).copy()
+        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
+                                                                new_inputs=new_inputs,
+                                                                transient_state=my_transients,
+                                                                asoh=my_asoh)
+
+        # Let's also degrade the A-SOH
+        # We need the measurement
+        new_measurement = self.cell_model.calculate_terminal_voltage(new_inputs=previous_inputs,
+                                                                     transient_state=my_transients,
+                                                                     asoh=my_asoh)
+        deg_asoh = self.deg_model.update_asoh(previous_asoh=my_asoh,
+                                              new_inputs=previous_inputs,
+                                              new_transients=my_transients,
+                                              new_measurements=new_measurement)
+
+        # Convert this back to filter lingo
+        output[:, :self.num_transients] = new_transients.to_numpy()
+        output[:, self.num_transients:] = deg_asoh.get_parameters(names=self.asoh_inputs)
+        output = self.hidden_conversion.inverse_transform_samples(transformed_samples=output)
+        return output
+
+    def predict_measurement(self,
+                            hidden_states: np.ndarray,
+                            controls: np.ndarray) -> np.ndarray:
+        # First, transform the controls into ECM inputs
+        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
+
+        # Now, iterate through hidden states to compute terminal voltage
+        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
+        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
+                                                             transient_state=my_transients,
+                                                             asoh=my_asoh)
+        # Convert to filter lingo
+        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
+        return outputs
-- 
2.43.0


From f05eddd06dcd137ed31499334e6c12563da42198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 08/29] fix: align the online estimates with the rows of the
 dataset

---
 moirae/interface/__init__.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/moirae/interface/__init__.py b/moirae/interface/__init__.py
index 2911fcd..7f5f517 100644
--- a/moirae/interface/__init__.py
+++ b/moirae/interface/__init__.py
@@ -103,10 +103,14 @@ def run_online_estimate(
 
     # Initialize the output arrays
     if output_states:
-        state_mean = np.zeros((num_rows, estimator.num_state_dimensions))
-        state_std = np.zeros((num_rows, estimator.num_state_dimensions))
-        output_mean = np.zeros((num_rows, estimator.num_output_dimensions))
-        output_std = np.zeros((num_rows, estimator.num_output_dimensions))
+        # The first row only provides the initial inputs: there are no outputs predicted for it
+        state_mean = np.full((num_rows, estimator.num_state_dimensions), np.nan)
+        state_std = np.full((num_rows, estimator.num_state_dimensions), np.nan)
+        output_mean = np.full((num_rows, estimator.num_output_dimensions), np.nan)
+        output_std = np.full((num_rows, estimator.num_output_dimensions), np.nan)
+        initial_state = estimator.state
+        state_mean[0, :] = initial_state.get_mean()
+        state_std[0, :] = np.diag(initial_state.get_covariance())
 
     # Open a H5 output if desired
     if isinstance(hdf5_output, (str, Path, h5py.Group)):
@@ -123,7 +127,7 @@ def run_online_estimate(
             h5_writer.prepare(estimator=estimator, expected_steps=num_rows, expected_cycles=num_cycles)
 
         for i, row in tqdm(
-                enumerate(row_iter), total=num_rows, disable=not pbar,
+                enumerate(row_iter, start=1), total=num_rows - 1, disable=not pbar,
         ):
             controls, measurements = row_to_inputs(row)
             new_state, new_outputs = estimator.step(controls, measurements)
-- 
2.43.0


From 58e064e5c334a0dc8fe8129e8d3d6b73bf231982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 09/29] fix: report standard deviations in the "_std" columns

---
 moirae/interface/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moirae/interface/__init__.py b/moirae/interface/__init__.py
index 7f5f517..1e469b2 100644
--- a/moirae/interface/__init__.py
+++ b/moirae/interface/__init__.py
@@ -110,7 +110,7 @@ def run_online_estimate(
         output_std = np.full((num_rows, estimator.num_output_dimensions), np.nan)
         initial_state = estimator.state
         state_mean[0, :] = initial_state.get_mean()
-        state_std[0, :] = np.diag(initial_state.get_covariance())
+        state_std[0, :] = np.sqrt(np.diag(initial_state.get_covariance()))
 
     # Open a H5 output if desired
     if isinstance(hdf5_output, (str, Path, h5py.Group)):
@@ -134,9 +134,9 @@ def run_online_estimate(
 
             if output_states:
                 state_mean[i, :] = new_state.get_mean()
-                state_std[i, :] = np.diag(new_state.get_covariance())
+                state_std[i, :] = np.sqrt(np.diag(new_state.get_covariance()))
                 output_mean[i, :] = new_outputs.get_mean()
-                output_std[i, :] = np.diag(new_outputs.get_covariance())
+                output_std[i, :] = np.sqrt(np.diag(new_outputs.get_covariance()))
 
             # Store estimates
             if hdf5_output is not None:
-- 
2.43.0


From ce7311972bc4543ad099cbff91191bfeb6023b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 10/29] fix: expand HDF5 datasets far enough to hold the entry
 being written

---
 moirae/interface/hdf5.py | 588 +++++++++++++++++++--------------------
 1 file changed, 294 insertions(+), 294 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 1aa2fa3..40129d1 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -1,294 +1,294 @@
-"""Tools for writing state estimates to HDF5 files"""
-from contextlib import AbstractContextManager
-from typing import Union, Optional, Literal, Dict, Any, Iterator
-from pathlib import Path
-import json
-
-from flatten_dict import flatten
-from pydantic import BaseModel, Field, PrivateAttr
-import numpy as np
-import h5py
-
-from moirae.estimators.online import OnlineEstimator, MultivariateRandomDistribution
-from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
-
-OutputType = Literal['full', 'mean_cov', 'mean_var', 'mean', 'none']
-
-
-def _convert_state_to_numpy_dict(state: MultivariateRandomDistribution,
-                                 what: OutputType, tag: str) -> Dict[str, np.ndarray]:
-    """Convert a multivariate distribution to a dictionary of arrays as requested by the user.
-
-    Args:
-        state: State to be stored
-        what: What to store
-        tag: Name of the distribution (e.g., state, outputs)
-    """
-    if what == 'full':
-        return dict((f'{tag}_{k}', v) for k, v in flatten(state.model_dump(), reducer='dot').items())
-    elif what == 'mean_cov':
-        return {f'{tag}_mean': state.get_mean(), f'{tag}_covariance': state.get_covariance()}
-    elif what == 'mean_var':
-        return {f'{tag}_mean': state.get_mean(), f'{tag}_variance': np.diag(state.get_covariance())}
-    elif what == 'mean':
-        return {f'{tag}_mean': state.get_mean()}
-    else:
-        raise ValueError('Mode cannot be none' if what == 'none' else f'Unrecognized what: {what}')
-
-
-# TODO (wardlt): Consider writing only every N timesteps
-class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True):
-    """Write state estimation data to an HDF5 file incrementally
-
-    Args:
-        hdf5_output: Path to an HDF5 file or group within a file in which to write data
-        storage_key: Name of the group within the file to store all states
-        dataset_options: Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`.
-            Default is to use LZF compression.
-        resizable: Whether to allow the file to be shrunk or expanded
-        per_timestep: Which information to store at each timestep:
-            - `full`: All available information about the estimated state
-            - `mean_cov`: The mean and covariance of the estimated state
-            - `mean_var`: The mean and variance (i.e., diagonal of covariance matrix) of the estimated state
-            - `mean`: Only the mean
-            - `none`: No information
-        per_cycle: Which information to write at the first step of a cycle. The options are the same
-            as `per_timestep`.
-    """
-
-    # Attributes defining where and how to write
-    hdf5_output: Union[Path, str, h5py.Group] = Field(exclude=True)
-    """File or already-open HDF5 file in which to store data"""
-    file_options: Dict[str, Any] = Field(default_factory=lambda: dict(rdcc_nbytes=1024 ** 2 * 16, rdcc_w0=0))
-    """Options employed when opening the HDFt file. See :meth:`~h5py.File`"""
-    storage_key: str = 'state_estimates'
-    """Name of the group in which to store the estimates"""
-    dataset_options: Dict[str, Any] = Field(default_factory=lambda: dict(compression='lzf'))
-    """Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`"""
-    resizable: bool = True
-    """Whether to use `resizable datasets <https://docs.h5py.org/en/stable/high/dataset.html#resizable-datasets>`_."""
-
-    # Attributes defining what is written
-    per_timestep: OutputType = 'mean'
-    """What information to write each timestep"""
-    per_cycle: OutputType = 'full'
-    """What information to store at the first timestep each cycle"""
-
-    # State used only while in writing mode
-    _file_handle: Optional[h5py.File] = PrivateAttr(None)
-    """Handle to an open file"""
-    _group_handle: Optional[h5py.Group] = PrivateAttr(None)
-    """Handle to the group being written to"""
-    position: Optional[int] = None
-    """Index of the next step to be written"""
-
-    def __enter__(self):
-        """Open the file and store the group in which to write data"""
-        if not isinstance(self.hdf5_output, h5py.Group):
-            root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
-        else:
-            root = self.hdf5_output
-        if self.storage_key not in root:
-            root.create_group(self.storage_key)
-        self._group_handle = root.get(self.storage_key)
-        self.position = 0  # TODO (wardlt): Support re-opening files for writing phase
-        return self
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        """Close the file and stop being ready to write"""
-        if self._file_handle is not None:
-            self._file_handle.close()
-            self._file_handle = None
-        self._group_handle = None
-
-    @property
-    def is_ready(self) -> bool:
-        """Whether the class is ready to write estimates"""
-        return self._group_handle is not None
-
-    def _check_if_ready(self):
-        """Internal: raise exception if class is not ready to write"""
-        if not self.is_ready:
-            raise ValueError(f'{self.__class__.__name__} is not ready to write. Open it using a `with` statement.')
-
-    def prepare(self,
-                estimator: OnlineEstimator,
-                expected_steps: Optional[int] = None,
-                expected_cycles: Optional[int] = None):
-        """
-        Create the necessary groups and store metadata about the OnlineEstimator
-
-        Additional keyword arguments are passed to :meth:`~h5py.Group.create_dataset`.
-
-        Args:
-              estimator: Estimator being used to create estimates
-              expected_steps: Expected number of estimation timesteps. Required if not :attr:`resizable`.
-              expected_cycles: Expected number of cycles.
-        """
-        self._check_if_ready()
-        if not self.resizable and (expected_steps is None or expected_cycles is None):
-            raise ValueError('Expected sizes must be provided if not writing in resizable mode')
-
-        # Put the metadata in the attributes of the group
-        self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
-        self._group_handle.attrs['state_names'] = estimator.state_names
-        self._group_handle.attrs['output_names'] = estimator.output_names
-        self._group_handle.attrs['estimator_name'] = estimator.__class__.__name__
-        self._group_handle.attrs['distribution_type'] = estimator.state.__class__.__name__
-        self._group_handle.attrs['cell_model'] = estimator.cell_model.__class__.__name__
-        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json()
-        self._group_handle.attrs['initial_transient_state'] = estimator.transients.model_dump_json()
-
-        # Update accordingly
-        state = estimator.state
-        num_outputs = estimator.num_output_dimensions
-        # TODO (wardlt): Use actual output class employed by estimator
-        output = MultivariateGaussian(mean=np.zeros((num_outputs,)),
-                                      covariance=np.zeros((num_outputs, num_outputs)))
-
-        for what, where, expected in [(self.per_timestep, 'per_timestep', expected_steps),
-                                      (self.per_cycle, 'per_cycle', expected_cycles)]:
-            # Determine what to write
-            if what == "none":
-                continue
-            to_insert = {'time': np.array(0.)}
-            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
-            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
-
-            # Create datasets
-            if where in self._group_handle:
-                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
-            my_group = self._group_handle.create_group(where)
-            for key, value in to_insert.items():
-                if self.resizable:
-                    starting_size = 128 if expected is None else expected
-                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (expected, *value.shape)}
-                else:
-                    my_kwargs = {'shape': (expected, *value.shape)}
-
-                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
-
-    def append_step(self,
-                    time: float,
-                    cycle: int,
-                    state: MultivariateRandomDistribution,
-                    output: MultivariateRandomDistribution):
-        """
-        Add a state estimate to the dataset
-
-        Args:
-            time: Test time of timestep
-            cycle: Cycle associated with the timestep
-            state: State to be stored
-            output: Outputs predicted from the estimator
-        """
-        self._check_if_ready()
-
-        # Write the column to the appropriate part of the HDF5 file
-        # TODO (wardlt): Introduce a batched write implementation.
-        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
-                                 (int(cycle), self.per_cycle, 'per_cycle')]:
-            # Determine if we must write
-            if what == "none":
-                continue
-            my_group = self._group_handle[where]
-
-            # Only write the first state for each cycle
-            if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
-                continue
-
-            # Determine what to write
-            to_insert = {'time': np.array(time)}
-            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
-            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
-
-            # Write it
-            for key, value in to_insert.items():
-                my_dataset: h5py.Dataset = my_group[key]
-
-                # Expand by one chunk size if necessary
-                if my_dataset.shape[0] <= ind:
-                    my_dataset.resize(my_dataset.shape[0] + my_dataset.chunks[0], axis=0)
-
-                my_ind = (ind,) + (slice(None),) * value.ndim
-                my_dataset[my_ind] = value
-
-        # Increment the step position
-        self.position += 1
-
-
-def read_state_estimates(data_path: Union[str, Path, h5py.Group],
-                         per_timestep: bool = True,
-                         dist_type: type[MultivariateRandomDistribution] = MultivariateGaussian
-                         ) -> Iterator[tuple[float, MultivariateRandomDistribution, MultivariateRandomDistribution]]:
-    """
-    Read the state estimates from a file into progressive streams
-
-    Args:
-        data_path: Path to the HDF5 file or the group holding state estimates from an already-open file.
-        per_timestep: Whether to read per-timestep rather than per-cycle estiamtes
-        dist_type: Distribution type to create if the "full" distribution is stored
-
-    Yields:
-        - Time associated with estimate
-        - Distribution of state estimates
-        - Distribution of the output estimates
-    """
-
-    # Open the file and access the group holding the state estimates
-    file = None
-    if isinstance(data_path, (str, Path)):
-        file = h5py.File(data_path, mode='r')
-        try:
-            se_group = file['state_estimates']
-        except ValueError:
-            file.close()
-            raise
-    else:
-        se_group = data_path
-
-    try:
-        # Access the target group to read from
-        tag = 'per_timestep' if per_timestep else 'per_cycle'
-        read_type = json.loads(se_group.attrs['write_settings'])[tag]
-        if read_type == 'full':
-            if dist_type.__name__ != (stored_type := se_group.attrs['distribution_type']):
-                # TODO (wardlt): Have Moriae load the correct one automatically
-                raise ValueError(f'Estimates were stored as a {stored_type}'
-                                 f' but you provided dist_type={dist_type.__name__}')
-        elif read_type in ['mean_cov', 'mean_var']:
-            dist_type = MultivariateGaussian
-        elif read_type == 'mean':
-            dist_type = DeltaDistribution
-        elif read_type == 'none':
-            raise ValueError(f'No data was written for {tag}')
-        else:
-            raise NotImplementedError(f'Support for {read_type} not yet implemented')
-        data_group = se_group[tag]
-
-        # Read what data are available
-        data_keys = list(data_group.keys())
-        data_keys.remove('time')
-
-        # Yield the data from the file
-        def _unpack(ind, typ):
-            values = dict((k[len(typ):], data_group[k][ind]) for k in data_keys if k.startswith(typ))
-
-            # Expand variance to covariance
-            if read_type == 'mean_var':
-                values['covariance'] = np.diag(values.pop('variance'))
-            return values
-
-        for i, time in enumerate(data_group['time']):
-            if np.isnan(time):  # NaN marks the end of the data
-                return
-            # Unpack the dists
-            state_values = _unpack(i, 'state_')
-            state_dist = dist_type(**state_values)
-
-            output_values = _unpack(i, 'output_')
-            output_dist = dist_type(**output_values)
-            yield time, state_dist, output_dist
-    finally:
-        if file is not None:
-            file.close()
+"""Tools for writing state estimates to HDF5 files"""
+from contextlib import AbstractContextManager
+from typing import Union, Optional, Literal, Dict, Any, Iterator
+from pathlib import Path
+import json
+
+from flatten_dict import flatten
+from pydantic import BaseModel, Field, PrivateAttr
+import numpy as np
+import h5py
+
+from moirae.estimators.online import OnlineEstimator, MultivariateRandomDistribution
+from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
+
+OutputType = Literal['full', 'mean_cov', 'mean_var', 'mean', 'none']
+
+
+def _convert_state_to_numpy_dict(state: MultivariateRandomDistribution,
+                                 what: OutputType, tag: str) -> Dict[str, np.ndarray]:
+    """Convert a multivariate distribution to a dictionary of arrays as requested by the user.
+
+    Args:
+        state: State to be stored
+        what: What to store
+        tag: Name of the distribution (e.g., state, outputs)
+    """
+    if what == 'full':
+        return dict((f'{tag}_{k}', v) for k, v in flatten(state.model_dump(), reducer='dot').items())
+    elif what == 'mean_cov':
+        return {f'{tag}_mean': state.get_mean(), f'{tag}_covariance': state.get_covariance()}
+    elif what == 'mean_var':
+        return {f'{tag}_mean': state.get_mean(), f'{tag}_variance': np.diag(state.get_covariance())}
+    elif what == 'mean':
+        return {f'{tag}_mean': state.get_mean()}
+    else:
+        raise ValueError('Mode cannot be none' if what == 'none' else f'Unrecognized what: {what}')
+
+
+# TODO (wardlt): Consider writing only every N timesteps
+class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True):
+    """Write state estimation data to an HDF5 file incrementally
+
+    Args:
+        hdf5_output: Path to an HDF5 file or group within a file in which to write data
+        storage_key: Name of the group within the file to store all states
+        dataset_options: Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`.
+            Default is to use LZF compression.
+        resizable: Whether to allow the file to be shrunk or expanded
+        per_timestep: Which information to store at each timestep:
+            - `full`: All available information about the estimated state
+            - `mean_cov`: The mean and covariance of the estimated state
+            - `mean_var`: The mean and variance (i.e., diagonal of covariance matrix) of the estimated state
+            - `mean`: Only the mean
+            - `none`: No information
+        per_cycle: Which information to write at the first step of a cycle. The options are the same
+            as `per_timestep`.
+    """
+
+    # Attributes defining where and how to write
+    hdf5_output: Union[Path, str, h5py.Group] = Field(exclude=True)
+    """File or already-open HDF5 file in which to store data"""
+    file_options: Dict[str, Any] = Field(default_factory=lambda: dict(rdcc_nbytes=1024 ** 2 * 16, rdcc_w0=0))
+    """Options employed when opening the HDFt file. See :meth:`~h5py.File`"""
+    storage_key: str = 'state_estimates'
+    """Name of the group in which to store the estimates"""
+    dataset_options: Dict[str, Any] = Field(default_factory=lambda: dict(compression='lzf'))
+    """Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`"""
+    resizable: bool = True
+    """Whether to use `resizable datasets <https://docs.h5py.org/en/stable/high/dataset.html#resizable-datasets>`_."""
+
+    # Attributes defining what is written
+    per_timestep: OutputType = 'mean'
+    """What information to write each timestep"""
+    per_cycle: OutputType = 'full'
+    """What information to store at the first timestep each cycle"""
+
+    # State used only while in writing mode
+    _file_handle: Optional[h5py.File] = PrivateAttr(None)
+    """Handle to an open file"""
+    _group_handle: Optional[h5py.Group] = PrivateAttr(None)
+    """Handle to the group being written to"""
+    position: Optional[int] = None
+    """Index of the next step to be written"""
+
+    def __enter__(self):
+        """Open the file and store the group in which to write data"""
+        if not isinstance(self.hdf5_output, h5py.Group):
+            root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
+        else:
+            root = self.hdf5_output
+        if self.storage_key not in root:
+            root.create_group(self.storage_key)
+        self._group_handle = root.get(self.storage_key)
+        self.position = 0  # TODO (wardlt): Support re-opening files for writing phase
+        return self
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        """Close the file and stop being ready to write"""
+        if self._file_handle is not None:
+            self._file_handle.close()
+            self._file_handle = None
+        self._group_handle = None
+
+    @property
+    def is_ready(self) -> bool:
+        """Whether the class is ready to write estimates"""
+        return self._group_handle is not None
+
+    def _check_if_ready(self):
+        """Internal: raise exception if class is not ready to write"""
+        if not self.is_ready:
+            raise ValueError(f'{self.__class__.__name__} is not ready to write. Open it using a `with` statement.')
+
+    def prepare(self,
+                estimator: OnlineEstimator,
+                expected_steps: Optional[int] = None,
+                expected_cycles: Optional[int] = None):
+        """
+        Create the necessary groups and store metadata about the OnlineEstimator
+
+        Additional keyword arguments are passed to :meth:`~h5py.Group.create_dataset`.
+
+        Args:
+              estimator: Estimator being used to create estimates
+              expected_steps: Expected number of estimation timesteps. Required if not :attr:`resizable`.
+              expected_cycles: Expected number of cycles.
+        """
+        self._check_if_ready()
+        if not self.resizable and (expected_steps is None or expected_cycles is None):
+            raise ValueError('Expected sizes must be provided if not writing in resizable mode')
+
+        # Put the metadata in the attributes of the group
+        self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
+        self._group_handle.attrs['state_names'] = estimator.state_names
+        self._group_handle.attrs['output_names'] = estimator.output_names
+        self._group_handle.attrs['estimator_name'] = estimator.__class__.__name__
+        self._group_handle.attrs['distribution_type'] = estimator.state.__class__.__name__
+        self._group_handle.attrs['cell_model'] = estimator.cell_model.__class__.__name__
+        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json()
+        self._group_handle.attrs['initial_transient_state'] = estimator.transients.model_dump_json()
+
+        # Update accordingly
+        state = estimator.state
+        num_outputs = estimator.num_output_dimensions
+        # TODO (wardlt): Use actual output class employed by estimator
+        output = MultivariateGaussian(mean=np.zeros((num_outputs,)),
+                                      covariance=np.zeros((num_outputs, num_outputs)))
+
+        for what, where, expected in [(self.per_timestep, 'per_timestep', expected_steps),
+                                      (self.per_cycle, 'per_cycle', expected_cycles)]:
+            # Determine what to write
+            if what == "none":
+                continue
+            to_insert = {'time': np.array(0.)}
+            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
+            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+
+            # Create datasets
+            if where in self._group_handle:
+                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
+            my_group = self._group_handle.create_group(where)
+            for key, value in to_insert.items():
+                if self.resizable:
+                    starting_size = 128 if expected is None else expected
+                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (expected, *value.shape)}
+                else:
+                    my_kwargs = {'shape': (expected, *value.shape)}
+
+                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
+
+    def append_step(self,
+                    time: float,
+                    cycle: int,
+                    state: MultivariateRandomDistribution,
+                    output: MultivariateRandomDistribution):
+        """
+        Add a state estimate to the dataset
+
+        Args:
+            time: Test time of timestep
+            cycle: Cycle associated with the timestep
+            state: State to be stored
+            output: Outputs predicted from the estimator
+        """
+        self._check_if_ready()
+
+        # Write the column to the appropriate part of the HDF5 file
+        # TODO (wardlt): Introduce a batched write implementation.
+        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
+                                 (int(cycle), self.per_cycle, 'per_cycle')]:
+            # Determine if we must write
+            if what == "none":
+                continue
+            my_group = self._group_handle[where]
+
+            # Only write the first state for each cycle
+            if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
+                continue
+
+            # Determine what to write
+            to_insert = {'time': np.array(time)}
+            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
+            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+
+            # Write it
+            for key, value in to_insert.items():
+                my_dataset: h5py.Dataset = my_group[key]
+
+                # Expand by at least one chunk size if necessary
+                if my_dataset.shape[0] <= ind:
+                    my_dataset.resize(max(my_dataset.shape[0] + my_dataset.chunks[0], ind + 1), axis=0)
+
+                my_ind = (ind,) + (slice(None),) * value.ndim
+                my_dataset[my_ind] = value
+
+        # Increment the step position
+        self.position += 1
+
+
+def read_state_estimates(data_path: Union[str, Path, h5py.Group],
+                         per_timestep: bool = True,
+                         dist_type: type[MultivariateRandomDistribution] = MultivariateGaussian
+                         ) -> Iterator[tuple[float, MultivariateRandomDistribution, MultivariateRandomDistribution]]:
+    """
+    Read the state estimates from a file into progressive streams
+
+    Args:
+        data_path: Path to the HDF5 file or the group holding state estimates from an already-open file.
+        per_timestep: Whether to read per-timestep rather than per-cycle estiamtes
+        dist_type: Distribution type to create if the "full" distribution is stored
+
+    Yields:
+        - Time associated with estimate
+        - Distribution of state estimates
+        - Distribution of the output estimates
+    """
+
+    # Open the file and access the group holding the state estimates
+    file = None
+    if isinstance(data_path, (str, Path)):
+        file = h5py.File(data_path, mode='r')
+        try:
+            se_group = file['state_estimates']
+        except ValueError:
+            file.close()
+            raise
+    else:
+        se_group = data_path
+
+    try:
+        # Access the target group to read from
+        tag = 'per_timestep' if per_timestep else 'per_cycle'
+        read_type = json.loads(se_group.attrs['write_settings'])[tag]
+        if read_type == 'full':
+            if dist_type.__name__ != (stored_type := se_group.attrs['distribution_type']):
+                # TODO (wardlt): Have Moriae load the correct one automatically
+                raise ValueError(f'Estimates were stored as a {stored_type}'
+                                 f' but you provided dist_type={dist_type.__name__}')
+        elif read_type in ['mean_cov', 'mean_var']:
+            dist_type = MultivariateGaussian
+        elif read_type == 'mean':
+            dist_type = DeltaDistribution
+        elif read_type == 'none':
+            raise ValueError(f'No data was written for {tag}')
+        else:
+            raise NotImplementedError(f'Support for {read_type} not yet implemented')
+        data_group = se_group[tag]
+
+        # Read what data are available
+        data_keys = list(data_group.keys())
+        data_keys.remove('time')
+
+        # Yield the data from the file
+        def _unpack(ind, typ):
+            values = dict((k[len(typ):], data_group[k][ind]) for k in data_keys if k.startswith(typ))
+
+            # Expand variance to covariance
+            if read_type == 'mean_var':
+                values['covariance'] = np.diag(values.pop('variance'))
+            return values
+
+        for i, time in enumerate(data_group['time']):
+            if np.isnan(time):  # NaN marks the end of the data
+                return
+            # Unpack the dists
+            state_values = _unpack(i, 'state_')
+            state_dist = dist_type(**state_values)
+
+            output_values = _unpack(i, 'output_')
+            output_dist = dist_type(**output_values)
+            yield time, state_dist, output_dist
+    finally:
+        if file is not None:
+            file.close()
-- 
2.43.0


From a9ff13d26154328f397209dc569c79a60faf38ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 11/29] fix: skip, rather than stop at, the cycles without an
 estimate when reading

---
 moirae/interface/hdf5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 40129d1..ad43410 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -280,8 +280,8 @@ def read_state_estimates(data_path: Union[str, Path, h5py.Group],
             return values
 
         for i, time in enumerate(data_group['time']):
-            if np.isnan(time):  # NaN marks the end of the data
-                return
+            if np.isnan(time):  # NaN marks entries which were never written (e.g., cycle numbers not in the data)
+                continue
             # Unpack the dists
             state_values = _unpack(i, 'state_')
             state_dist = dist_type(**state_values)
-- 
2.43.0


From e04163eefe0a06fb7c910b1428d926481c197ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 12/29] fix: close the HDF5 file if it lacks state estimates

---
 moirae/interface/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index ad43410..0d70c0e 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -241,7 +241,7 @@ def read_state_estimates(data_path: Union[str, Path, h5py.Group],
         file = h5py.File(data_path, mode='r')
         try:
             se_group = file['state_estimates']
-        except ValueError:
+        except KeyError:
             file.close()
             raise
     else:
-- 
2.43.0


From 412ba0a97d73211e58d2057684aa0172e901a494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 13/29] fix: label each row of the simulator history with the
 right batch member

---
 moirae/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/simulator.py b/moirae/simulator.py
index ac236c3..1ad5b6a 100644
--- a/moirae/simulator.py
+++ b/moirae/simulator.py
@@ -161,7 +161,7 @@ class Simulator:
             return pd.DataFrame(values, columns=params[0].all_names)
 
         # Make a dataframe of each component of the history
-        member = np.repeat(np.arange(batch_size), len(self.input_history))
+        member = np.tile(np.arange(batch_size), len(self.input_history))  # The history is ordered by time, then batch
         return pd.concat([
             pd.DataFrame({'batch': member}),
             _squish(self.input_history),
-- 
2.43.0


From 4ddfbb09e0b09a3a07d76bb50a12c495fb638883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 14/29] fix: define the A-SOH history of simulators which do
 not keep it

---
 moirae/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/simulator.py b/moirae/simulator.py
index 1ad5b6a..ea4471b 100644
--- a/moirae/simulator.py
+++ b/moirae/simulator.py
@@ -76,7 +76,7 @@ class Simulator:
             self.asoh_history = [self.asoh.model_copy(deep=True)]
             self.measurement_history = [self.measurement.model_copy(deep=True)]
         else:
-            self.input_history = self.transient_history = self.measurement_history = None
+            self.input_history = self.transient_history = self.asoh_history = self.measurement_history = None
 
     def step(self, new_inputs: InputQuantities) -> Tuple[GeneralContainer, OutputQuantities]:
         """
-- 
2.43.0


From 84cd04512136b238c7fa74d0f1dbe8071ee0daea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 15/29] fix: count the parameters to update independently of
 the batch size

---
 moirae/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/base.py b/moirae/models/base.py
index 5f9ac1f..2634e50 100644
--- a/moirae/models/base.py
+++ b/moirae/models/base.py
@@ -395,7 +395,7 @@ class HealthVariable(BaseModel, arbitrary_types_allowed=True):
             model = models[-1]
             attr = my_names[-1]
             cur_value = getattr(model, attr)
-            num_params = np.size(cur_value)
+            num_params = cur_value.shape[-1]
 
             # Get the parameters to use
             end = pos + num_params
-- 
2.43.0


From a8951415fec622aa39c19180ef22a9fa8c839b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 16/29] fix: do not alias the array used to fill a container

---
 moirae/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/base.py b/moirae/models/base.py
index 2634e50..c457fdb 100644
--- a/moirae/models/base.py
+++ b/moirae/models/base.py
@@ -532,7 +532,7 @@ class GeneralContainer(BaseModel,
             field_len = current_field.shape[-1]
 
             end_index = begin_index + field_len
-            new_field_values = values[:, begin_index:end_index]
+            new_field_values = values[:, begin_index:end_index].copy()
             setattr(self, field_name, new_field_values)
             begin_index = end_index
 
-- 
2.43.0


From c33905736df6713d45ecb4d6af2a239fcfa2e46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 17/29] fix: allow the entropic OCV to be batched independently
 of the reference

---
 moirae/models/ecm/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index 5c8552f..576a2a6 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -137,7 +137,7 @@ class OpenCircuitVoltage(HealthVariable):
         if temp is not None:
             T_ref = self.ocv_ref.reference_temperature
             delta_T = temp - T_ref
-            ocv += delta_T * self.ocv_ent.get_value(soc=soc)
+            ocv = ocv + delta_T * self.ocv_ent.get_value(soc=soc)
         return ocv
 
     def __call__(self,
-- 
2.43.0


From 53737fcf0a248d8d859f45b46f14feedde3e18e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 18/29] fix: support batches of temperature dependence factors

---
 moirae/models/ecm/components.py | 2 +-
 moirae/models/ecm/utils.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index 576a2a6..c2082f7 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -61,7 +61,7 @@ class Resistance(SOCInterpolatedHealth):
         reference_value = super().get_value(soc)
 
         # Correct for temperature dependence
-        if temp is None or self.temperature_dependence_factor == 0:
+        if temp is None or np.all(self.temperature_dependence_factor == 0):
             return reference_value
         gamma = self.temperature_dependence_factor
         deltaT = np.array(temp) - self.reference_temperature
diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index 94049dc..24f8033 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -70,7 +70,7 @@ class SOCInterpolatedHealth(HealthVariable):
         if len(soc_shape) == 2:
             soc_batch_size = soc.shape[0]
             soc_dim = soc.shape[1]
-        internal_batch_size = self.batch_size
+        internal_batch_size = self.base_values.shape[0]  # Other parameters may have a different batch size
 
         # Special case: no interpolation
         if self.base_values.shape[-1] == 1:
-- 
2.43.0


From a6e0a99d4b9ff49030d991314e5cad6f6098159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 19/29] fix: allow RC elements with different batch sizes

---
 moirae/models/ecm/__init__.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 831022d..0270d62 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -75,8 +75,8 @@ class EquivalentCircuitModel(CellModel):
         # Update i_RCs
         iRC_kp1 = transient_state.i_rc.copy()  # Shape: (trans_batch_size, num_rc)
         if iRC_kp1.shape[1] > 0:  # If there are RC elements
-            tau = np.array([RC.time_constant(soc=soc_k, temp=temp_k)
-                            for RC in asoh.rc_elements])  # Shape: (num_rc, rc_batch, soc_batch, soc_dim=1)
+            tau = np.array(np.broadcast_arrays(*[RC.time_constant(soc=soc_k, temp=temp_k)
+                                                 for RC in asoh.rc_elements]))  # Shape: (num_rc, rc_batch, soc_batch, soc_dim=1)
             assert len(tau.shape) == 4, f'RC time constant has shape {tau.shape}D, instead of 4D!'
             # NOTE: we already assume that the A-SOH batch and transient batch are broadcastable!
             if tau.shape[1] == tau.shape[2]:
@@ -179,11 +179,11 @@ class EquivalentCircuitModel(CellModel):
 
         # Check RC elements
         if transient_state.i_rc.shape[-1] > 0:
-            rc_rs = np.array(
-                [rc.r.get_value(soc=transient_state.soc,
-                                temp=new_inputs.temperature)
-                 for rc in asoh.rc_elements]
-            )  # Shape: (num_rc, rc.r_batch, soc_batch, soc_dim=1)
+            rc_rs = np.array(np.broadcast_arrays(
+                *[rc.r.get_value(soc=transient_state.soc,
+                                 temp=new_inputs.temperature)
+                  for rc in asoh.rc_elements]
+            ))  # Shape: (num_rc, rc.r_batch, soc_batch, soc_dim=1)
             # Transpose to get shape of (rc.r_batch, num_rc, soc_batch, soc_dim=1)
             rc_rs = np.swapaxes(rc_rs, axis1=0, axis2=1)
             # Get currents through resistors in RC
-- 
2.43.0


From 0a766b24cc2ba7b5dd4dcccca6a13814cafe6713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 20/29] fix: start the linear current ramp through RC elements
 from the previous current

---
 moirae/models/ecm/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 0270d62..4d770fa 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -90,7 +90,7 @@ class EquivalentCircuitModel(CellModel):
             assert len(tau.shape) == 2, f'RC time constant has shape {tau.shape}D, instead of 2D!'
             exp_factor = np.exp(-delta_t / tau)  # shape (batch_size, num_rc)
             iRC_kp1 = iRC_kp1 * exp_factor  # shape (batch_size, num_rc)
-            iRC_kp1 = iRC_kp1 + ((1 - exp_factor) * (current_kp1 - (current_slope * tau)))  # shape (batch_size, num_rc)
+            iRC_kp1 = iRC_kp1 + ((1 - exp_factor) * (current_kp1 - (current_slope * (tau + delta_t))))  # shape (batch_size, num_rc)
             iRC_kp1 = iRC_kp1 + (current_slope * delta_t)  # shape (batch_size, num_rc)
 
         # Update hysteresis
-- 
2.43.0


From 7681337ae7491a15b06ebda0d25991197525d10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 21/29] fix: do not share the components between the RC
 elements of the template

---
 moirae/models/ecm/advancedSOH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/ecm/advancedSOH.py b/moirae/models/ecm/advancedSOH.py
index 657b339..4932aad 100644
--- a/moirae/models/ecm/advancedSOH.py
+++ b/moirae/models/ecm/advancedSOH.py
@@ -113,7 +113,7 @@ class ECMASOH(HealthVariable):
                 RC_R = Resistance(base_values=0.01,
                                   temperature_dependence_factor=0.0025)
                 RC_C = Capacitance(base_values=2500)
-                RCcomps = tuple(RCComponent(r=RC_R, c=RC_C).model_copy()
+                RCcomps = tuple(RCComponent(r=RC_R, c=RC_C).model_copy(deep=True)
                                 for _ in range(num_RC))
             else:
                 if len(RC) != num_RC:
-- 
2.43.0


From 9bc1542befded3a2033c08c29cf546e099daa94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 22/29] fix: load SOC pinpoints from JSON

---
 moirae/models/ecm/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index 24f8033..c9a3aae 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -1,19 +1,25 @@
 from typing import List, Optional, Union, Literal, Callable, Iterator
 from numbers import Number
+from typing_extensions import Annotated
 
 import numpy as np
-from pydantic import Field, field_serializer
+from pydantic import BeforeValidator, Field, field_serializer
 from scipy.interpolate import interp1d
 
 from moirae.models.base import HealthVariable, ListParameter
 
 
+def _decode_pinpoints(value):
+    """Convert a list, such as loaded from JSON, to a numpy array"""
+    return np.array(value) if isinstance(value, list) else value
+
+
 class SOCInterpolatedHealth(HealthVariable):
     """Defines basic functionality for HealthVariables that need interpolation between SOC pinpoints
     """
     base_values: ListParameter = \
         Field(default=0, description='Values at specified SOCs')
-    soc_pinpoints: Optional[np.ndarray] = Field(default=None, description='SOC pinpoints for interpolation.')
+    soc_pinpoints: Annotated[Optional[np.ndarray], BeforeValidator(_decode_pinpoints)] = Field(default=None, description='SOC pinpoints for interpolation.')
     interpolation_style: Literal['linear', 'nearest', 'nearest-up', 'zero', 'slinear',
                                  'quadratic', 'cubic', 'previous', 'next'] = \
         Field(default='linear', description='Type of interpolation to perform')
-- 
2.43.0


From 0813a63e976723b9b7312b194babb396e2d7859b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 23/29] fix: score each member of a batch of parameters
 separately

---
 moirae/estimators/offline/loss.py | 214 +++++++++++++++---------------
 1 file changed, 107 insertions(+), 107 deletions(-)

diff --git a/moirae/estimators/offline/loss.py b/moirae/estimators/offline/loss.py
index 2036d32..c39d9c8 100644
--- a/moirae/estimators/offline/loss.py
+++ b/moirae/estimators/offline/loss.py
@@ -1,107 +1,107 @@
-"""Interfaces that evaluate the fitness of a set of battery state parameters
-provided as a NumPy array."""
-import numpy as np
-from battdat.data import BatteryDataset
-
-from moirae.interface import row_to_inputs
-from moirae.models.base import CellModel, HealthVariable, GeneralContainer
-from moirae.simulator import Simulator
-
-
-# TODO (wardlt): Add degradation model after we decide how to handle its parameters
-class BaseLoss:
-    """
-    Base class for objective functions which evaluate the ability of a set
-    of battery health parameters to explain the observed performance data.
-
-    All Loss classes should follow the convention that better sets of
-    parameters yield values which are less than worse parameters.
-    There are no constraints on whether the values need to be positive or negative.
-    """
-
-    cell_model: CellModel
-    """Cell model used to compute """
-    asoh: HealthVariable
-    """Initial guess for battery health"""
-    state: GeneralContainer
-    """Initial guess for battery transient state"""
-    observations: BatteryDataset
-    """Observed data for the battery performance"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transient_state: GeneralContainer,
-                 observations: BatteryDataset):
-        self.cell_model = cell_model
-        self.asoh = asoh.model_copy(deep=True)
-        self.state = transient_state.model_copy(deep=True)
-        self.observations = observations
-
-    # TODO (wardlt): Consider passing the ASOH parameters through somewhere else
-    def get_x0(self) -> np.ndarray:
-        """Generate an initial guess
-
-        Returns:
-            A 1D vector used as a starting point for class to this class
-        """
-        if self.asoh.num_updatable == 0:
-            return self.state.to_numpy()[0, :]
-        return np.concatenate([self.state.to_numpy(), self.asoh.get_parameters()], axis=1)[0, :]  # Get a 1D vector
-
-    def __call__(self, x: np.ndarray) -> np.ndarray:
-        """
-        Compute the fitness of a set of parameters to the observed data.
-
-        Args:
-            x: Batch of parameters to be evaluated (2D array)
-
-        Returns:
-            A single measure of parameter fitness for each member of batch (1D array)
-        """
-        raise NotImplementedError()
-
-
-# TODO (wardlt): Generalize to other outputs when we have them
-class MeanSquaredLoss(BaseLoss):
-    """
-    Score the fitness of a set of health parameters by the mean squared error
-    between observed and predicted terminal voltage.
-    """
-
-    def __call__(self, x: np.ndarray) -> np.ndarray:
-        # Translate input parameters to state and ASOH parameters
-        n_states = len(self.state)
-        state_x = self.state.make_copy(x[:, :n_states])
-        asoh_x = self.asoh.make_copy(x[:, n_states:])
-
-        # Build a simulator
-        raw_data = self.observations.tables['raw_data']
-        initial_input, initial_output = row_to_inputs(raw_data.iloc[0])
-        sim = Simulator(
-            cell_model=self.cell_model,
-            asoh=asoh_x,
-            transient_state=state_x,
-            initial_input=initial_input,
-        )
-
-        # Prepare the output arrays
-        num_outs = len(initial_output)
-        pred_y = np.zeros((len(raw_data), 1, num_outs))
-        true_y = np.zeros((len(raw_data), x.shape[0], num_outs))
-
-        true_y[0, :] = initial_output.to_numpy()
-        y = self.cell_model.calculate_terminal_voltage(initial_input, state_x, asoh_x)
-        pred_y[0, :] = y.to_numpy()
-
-        # Run the forward model
-        for i, (_, row) in enumerate(self.observations.raw_data.iloc[1:].iterrows()):
-            new_in, new_out = row_to_inputs(row)
-            _, pred_out = sim.step(new_in)
-
-            true_y[i + 1, :] = new_out.to_numpy()
-            pred_y[i + 1, :] = pred_out.to_numpy()
-
-        # Compute the mean-squared-error for each member of the batch
-        squared_error = np.power(pred_y - true_y, 2)
-        return np.mean(squared_error, axis=(0, 2))  # Average over steps and outputs
+"""Interfaces that evaluate the fitness of a set of battery state parameters
+provided as a NumPy array."""
+import numpy as np
+from battdat.data import BatteryDataset
+
+from moirae.interface import row_to_inputs
+from moirae.models.base import CellModel, HealthVariable, GeneralContainer
+from moirae.simulator import Simulator
+
+
+# TODO (wardlt): Add degradation model after we decide how to handle its parameters
+class BaseLoss:
+    """
+    Base class for objective functions which evaluate the ability of a set
+    of battery health parameters to explain the observed performance data.
+
+    All Loss classes should follow the convention that better sets of
+    parameters yield values which are less than worse parameters.
+    There are no constraints on whether the values need to be positive or negative.
+    """
+
+    cell_model: CellModel
+    """Cell model used to compute """
+    asoh: HealthVariable
+    """Initial guess for battery health"""
+    state: GeneralContainer
+    """Initial guess for battery transient state"""
+    observations: BatteryDataset
+    """Observed data for the battery performance"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transient_state: GeneralContainer,
+                 observations: BatteryDataset):
+        self.cell_model = cell_model
+        self.asoh = asoh.model_copy(deep=True)
+        self.state = transient_state.model_copy(deep=True)
+        self.observations = observations
+
+    # TODO (wardlt): Consider passing the ASOH parameters through somewhere else
+    def get_x0(self) -> np.ndarray:
+        """Generate an initial guess
+
+        Returns:
+            A 1D vector used as a starting point for class to this class
+        """
+        if self.asoh.num_updatable == 0:
+            return self.state.to_numpy()[0, :]
+        return np.concatenate([self.state.to_numpy(), self.asoh.get_parameters()], axis=1)[0, :]  # Get a 1D vector
+
+    def __call__(self, x: np.ndarray) -> np.ndarray:
+        """
+        Compute the fitness of a set of parameters to the observed data.
+
+        Args:
+            x: Batch of parameters to be evaluated (2D array)
+
+        Returns:
+            A single measure of parameter fitness for each member of batch (1D array)
+        """
+        raise NotImplementedError()
+
+
+# TODO (wardlt): Generalize to other outputs when we have them
+class MeanSquaredLoss(BaseLoss):
+    """
+    Score the fitness of a set of health parameters by the mean squared error
+    between observed and predicted terminal voltage.
+    """
+
+    def __call__(self, x: np.ndarray) -> np.ndarray:
+        # Translate input parameters to state and ASOH parameters
+        n_states = len(self.state)
+        state_x = self.state.make_copy(x[:, :n_states])
+        asoh_x = self.asoh.make_copy(x[:, n_states:])
+
+        # Build a simulator
+        raw_data = self.observations.tables['raw_data']
+        initial_input, initial_output = row_to_inputs(raw_data.iloc[0])
+        sim = Simulator(
+            cell_model=self.cell_model,
+            asoh=asoh_x,
+            transient_state=state_x,
+            initial_input=initial_input,
+        )
+
+        # Prepare the output arrays
+        num_outs = len(initial_output)
+        pred_y = np.zeros((len(raw_data), x.shape[0], num_outs))
+        true_y = np.zeros((len(raw_data), x.shape[0], num_outs))
+
+        true_y[0, :] = initial_output.to_numpy()
+        y = self.cell_model.calculate_terminal_voltage(initial_input, state_x, asoh_x)
+        pred_y[0, :] = y.to_numpy()
+
+        # Run the forward model
+        for i, (_, row) in enumerate(self.observations.raw_data.iloc[1:].iterrows()):
+            new_in, new_out = row_to_inputs(row)
+            _, pred_out = sim.step(new_in)
+
+            true_y[i + 1, :] = new_out.to_numpy()
+            pred_y[i + 1, :] = pred_out.to_numpy()
+
+        # Compute the mean-squared-error for each member of the batch
+        squared_error = np.power(pred_y - true_y, 2)
+        return np.mean(squared_error, axis=(0, 2))  # Average over steps and outputs
-- 
2.43.0


From 50fd78a8a3509c22965b079a835e676e1ca19e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 24/29] fix: hysteresis relaxes towards its limit in the first
 part of a current reversal

The interval ends at zero current, so the sign test on the final current grew the exponent instead of
decaying it when the current changed from charge to discharge, and round-off could fail the assertion.
---
 moirae/models/ecm/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index c9a3aae..ae73ac6 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -146,11 +146,13 @@ def hysteresis_solver_const_sign(
     h_dt: float
         Hysteresis value at the end of the time interval
     """
-    assert i0 * (i0 + (alpha * dt)) >= 0, 'Current flips sign in interval dt!!'
+    # Tolerate round-off when the interval ends where the current crosses zero
+    assert i0 * (i0 + (alpha * dt)) >= -1e-9 * (i0 * i0), 'Current flips sign in interval dt!!'
     exp_factor = kappa * dt  # shape (broadcasted_batch_size, 1)
     exp_factor = exp_factor * (i0 + (0.5 * alpha * dt))
-    # Now, flip the sign depending if current is positive in the interval
-    if i0 > -(alpha * dt):  # this indicates (i0 + alpha * t) > 0
+    # Now, flip the sign depending if current is positive in the interval. Use the average current, as the
+    # current at either end of the interval may be zero
+    if i0 + (0.5 * alpha * dt) > 0:
         exp_factor = -exp_factor
     exp_factor = np.exp(exp_factor)
     h_dt = exp_factor * h0
-- 
2.43.0


From e1848ff9dc3f149358085818ddcd92497a2750a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 25/29] fix: hysteresis follows a linear current ramp which
 starts from rest

The limit was multiplied by a zero current, so the hysteresis relaxed towards zero instead.
---
 moirae/models/ecm/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 4d770fa..c359b1a 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -100,9 +100,13 @@ class EquivalentCircuitModel(CellModel):
         # Recall that, if charging, than M has to be >0, but, if dischargin, it
         # has to be <0. The easiest way to check for that is to multiply by the
         # current and divide by its absolute value
-        M = M * current_k  # shape (h0_batch, trans_batch, 1)
-        if not np.allclose(current_k, 0):
-            M = M / abs(current_k)  # shape (h0_batch, trans_batch, 1)
+        # A linear ramp which starts from rest has the sign of the new current
+        current_dir = current_k
+        if self.current_behavior != 'constant' and np.allclose(current_k, 0):
+            current_dir = current_kp1
+        M = M * current_dir  # shape (h0_batch, trans_batch, 1)
+        if not np.allclose(current_dir, 0):
+            M = M / abs(current_dir)  # shape (h0_batch, trans_batch, 1)
 
         gamma = asoh.h0.gamma  # shape (h0_batch, 1)
         kappa = (coul_eff * gamma) / Qt  # shape (asoh_batch, 1)
-- 
2.43.0


From aadaa26c33dbb80f6540d9e8730db957b11b4f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 26/29] fix: name the argument of the OCV extractor as the
 interface does

---
 moirae/extractors/ecm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moirae/extractors/ecm.py b/moirae/extractors/ecm.py
index f7678bd..b5bba51 100644
--- a/moirae/extractors/ecm.py
+++ b/moirae/extractors/ecm.py
@@ -113,16 +113,16 @@ class OCVExtractor(BaseExtractor):
         )
         return spline(self.soc_points)
 
-    def extract(self, dataset: CellDataset) -> OpenCircuitVoltage:
+    def extract(self, data: CellDataset) -> OpenCircuitVoltage:
         """Extract an estimate for the OCV of a cell
 
         Args:
-            dataset: Dataset containing an estimate for the nominal capacity and time series measurements.
+            data: Dataset containing an estimate for the nominal capacity and time series measurements.
 
         Returns:
             An OCV instance with the requested SOC interpolation points,
         """
-        knots = self.interpolate_ocv(dataset.tables['raw_data'])
+        knots = self.interpolate_ocv(data.tables['raw_data'])
         return OpenCircuitVoltage(
             ocv_ref=ReferenceOCV(base_values=knots, soc_pinpoints=self.soc_points,
                                  interpolation_style=self.interpolation_style)
-- 
2.43.0


From bdce7840f4e589d87ecfd51a0933f1c7ddc9baa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 27/29] fix: keep the line endings of the files changed by
 earlier repairs

---
 moirae/estimators/offline/loss.py       | 214 +++----
 moirae/estimators/online/utils/model.py | 808 ++++++++++++------------
 moirae/interface/hdf5.py                | 588 ++++++++---------
 3 files changed, 805 insertions(+), 805 deletions(-)

diff --git a/moirae/estimators/offline/loss.py b/moirae/estimators/offline/loss.py
index c39d9c8..04e14a0 100644
--- a/moirae/estimators/offline/loss.py
+++ b/moirae/estimators/offline/loss.py
@@ -1,107 +1,107 @@
-"""Interfaces that evaluate the fitness of a set of battery state parameters
-provided as a NumPy array."""
-import numpy as np
-from battdat.data import BatteryDataset
-
-from moirae.interface import row_to_inputs
-from moirae.models.base import CellModel, HealthVariable, GeneralContainer
-from moirae.simulator import Simulator
-
-
-# TODO (wardlt): Add degradation model after we decide how to handle its parameters
-class BaseLoss:
-    """
-    Base class for objective functions which evaluate the ability of a set
-    of battery health parameters to explain the observed performance data.
-
-    All Loss classes should follow the convention that better sets of
-    parameters yield values which are less than worse parameters.
-    There are no constraints on whether the values need to be positive or negative.
-    """
-
-    cell_model: CellModel
-    """Cell model used to compute """
-    asoh: HealthVariable
-    """Initial guess for battery health"""
-    state: GeneralContainer
-    """Initial guess for battery transient state"""
-    observations: BatteryDataset
-    """Observed data for the battery performance"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transient_state: GeneralContainer,
-                 observations: BatteryDataset):
-        self.cell_model = cell_model
-        self.asoh = asoh.model_copy(deep=True)
-        self.state = transient_state.model_copy(deep=True)
-        self.observations = observations
-
-    # TODO (wardlt): Consider passing the ASOH parameters through somewhere else
-    def get_x0(self) -> np.ndarray:
-        """Generate an initial guess
-
-        Returns:
-            A 1D vector used as a starting point for class to this class
-        """
-        if self.asoh.num_updatable == 0:
-            return self.state.to_numpy()[0, :]
-        return np.concatenate([self.state.to_numpy(), self.asoh.get_parameters()], axis=1)[0, :]  # Get a 1D vector
-
-    def __call__(self, x: np.ndarray) -> np.ndarray:
-        """
-        Compute the fitness of a set of parameters to the observed data.
-
-        Args:
-            x: Batch of parameters to be evaluated (2D array)
-
-        Returns:
-            A single measure of parameter fitness for each member of batch (1D array)
-        """
-        raise NotImplementedError()
-
-
-# TODO (wardlt): Generalize to other outputs when we have them
-class MeanSquaredLoss(BaseLoss):
-    """
-    Score the fitness of a set of health parameters by the mean squared error
-    between observed and predicted terminal voltage.
-    """
-
-    def __call__(self, x: np.ndarray) -> np.ndarray:
-        # Translate input parameters to state and ASOH parameters
-        n_states = len(self.state)
-        state_x = self.state.make_copy(x[:, :n_states])
-        asoh_x = self.asoh.make_copy(x[:, n_states:])
-
-        # Build a simulator
-        raw_data = self.observations.tables['raw_data']
-        initial_input, initial_output = row_to_inputs(raw_data.iloc[0])
-        sim = Simulator(
-            cell_model=self.cell_model,
-            asoh=asoh_x,
-            transient_state=state_x,
-            initial_input=initial_input,
-        )
-
-        # Prepare the output arrays
-        num_outs = len(initial_output)
-        pred_y = np.zeros((len(raw_data), x.shape[0], num_outs))
-        true_y = np.zeros((len(raw_data), x.shape[0], num_outs))
-
-        true_y[0, :] = initial_output.to_numpy()
-        y = self.cell_model.calculate_terminal_voltage(initial_input, state_x, asoh_x)
-        pred_y[0, :] = y.to_numpy()
-
-        # Run the forward model
-        for i, (_, row) in enumerate(self.observations.raw_data.iloc[1:].iterrows()):
-            new_in, new_out = row_to_inputs(row)
-            _, pred_out = sim.step(new_in)
-
-            true_y[i + 1, :] = new_out.to_numpy()
-            pred_y[i + 1, :] = pred_out.to_numpy()
-
-        # Compute the mean-squared-error for each member of the batch
-        squared_error = np.power(pred_y - true_y, 2)
-        return np.mean(squared_error, axis=(0, 2))  # Average over steps and outputs
+"""Interfaces that evaluate the fitness of a set of battery state parameters
+provided as a NumPy array."""
+import numpy as np
+from battdat.data import BatteryDataset
+
+from moirae.interface import row_to_inputs
+from moirae.models.base import CellModel, HealthVariable, GeneralContainer
+from moirae.simulator import Simulator
+
+
+# TODO (wardlt): Add degradation model after we decide how to handle its parameters
+class BaseLoss:
+    """
+    Base class for objective functions which evaluate the ability of a set
+    of battery health parameters to explain the observed performance data.
+
+    All Loss classes should follow the convention that better sets of
+    parameters yield values which are less than worse parameters.
+    There are no constraints on whether the values need to be positive or negative.
+    """
+
+    cell_model: CellModel
+    """Cell model used to compute """
+    asoh: HealthVariable
+    """Initial guess for battery health"""
+    state: GeneralContainer
+    """Initial guess for battery transient state"""
+    observations: BatteryDataset
+    """Observed data for the battery performance"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transient_state: GeneralContainer,
+                 observations: BatteryDataset):
+        self.cell_model = cell_model
+        self.asoh = asoh.model_copy(deep=True)
+        self.state = transient_state.model_copy(deep=True)
+        self.observations = observations
+
+    # TODO (wardlt): Consider passing the ASOH parameters through somewhere else
+    def get_x0(self) -> np.ndarray:
+        """Generate an initial guess
+
+        Returns:
+            A 1D vector used as a starting point for class to this class
+        """
+        if self.asoh.num_updatable == 0:
+            return self.state.to_numpy()[0, :]
+        return np.concatenate([self.state.to_numpy(), self.asoh.get_parameters()], axis=1)[0, :]  # Get a 1D vector
+
+    def __call__(self, x: np.ndarray) -> np.ndarray:
+        """
+        Compute the fitness of a set of parameters to the observed data.
+
+        Args:
+            x: Batch of parameters to be evaluated (2D array)
+
+        Returns:
+            A single measure of parameter fitness for each member of batch (1D array)
+        """
+        raise NotImplementedError()
+
+
+# TODO (wardlt): Generalize to other outputs when we have them
+class MeanSquaredLoss(BaseLoss):
+    """
+    Score the fitness of a set of health parameters by the mean squared error
+    between observed and predicted terminal voltage.
+    """
+
+    def __call__(self, x: np.ndarray) -> np.ndarray:
+        # Translate input parameters to state and ASOH parameters
+        n_states = len(self.state)
+        state_x = self.state.make_copy(x[:, :n_states])
+        asoh_x = self.asoh.make_copy(x[:, n_states:])
+
+        # Build a simulator
+        raw_data = self.observations.tables['raw_data']
+        initial_input, initial_output = row_to_inputs(raw_data.iloc[0])
+        sim = Simulator(
+            cell_model=self.cell_model,
+            asoh=asoh_x,
+            transient_state=state_x,
+            initial_input=initial_input,
+        )
+
+        # Prepare the output arrays
+        num_outs = len(initial_output)
+        pred_y = np.zeros((len(raw_data), x.shape[0], num_outs))
+        true_y = np.zeros((len(raw_data), x.shape[0], num_outs))
+
+        true_y[0, :] = initial_output.to_numpy()
+        y = self.cell_model.calculate_terminal_voltage(initial_input, state_x, asoh_x)
+        pred_y[0, :] = y.to_numpy()
+
+        # Run the forward model
+        for i, (_, row) in enumerate(self.observations.raw_data.iloc[1:].iterrows()):
+            new_in, new_out = row_to_inputs(row)
+            _, pred_out = sim.step(new_in)
+
+            true_y[i + 1, :] = new_out.to_numpy()
+            pred_y[i + 1, :] = pred_out.to_numpy()
+
+        # Compute the mean-squared-error for each member of the batch
+        squared_error = np.power(pred_y - true_y, 2)
+        return np.mean(squared_error, axis=(0, 2))  # Average over steps and outputs
diff --git a/moirae/estimators/online/utils/model.py b/moirae/estimators/online/utils/model.py
index a0ba6e4..5eca2b9 100644
--- a/moirae/estimators/online/utils/model.py
+++ b/moirae/estimators/online/utils/model.py
@@ -1,404 +1,404 @@
-"""Tools to reduce operations on :class:`~moirae.models.base.CellModel` to functions which act only on
-widely-used Python types, such as Numpy Arrays."""
-import numpy as np
-from typing import Tuple, Optional, Union
-
-from moirae.estimators.online.filters.base import ModelWrapper, ModelWrapperConverters
-from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
-from moirae.models.base import InputQuantities, GeneralContainer, HealthVariable, CellModel, DegradationModel
-from moirae.models.utils import NoDegradation
-
-
-def convert_vals_model_to_filter(
-        model_quantities: GeneralContainer,
-        uncertainty_matrix: Optional[np.ndarray] = None) -> Union[DeltaDistribution, MultivariateGaussian]:
-    """
-    Function that converts :class:`~moirae.model.base.GeneralContainer` object to filter-related quantities.
-    If uncertainty is provided, assumes a :class:`~moirae.estimators.online.filters.distributions.MultivariateGaussian`.
-    Otherwise, assumes :class:`~moirae.estimators.online.filters.distributions.DeltaDistribution`.
-
-    Args:
-        model_quantities: model-related object to be converted into filter-related object
-        uncertainty_matrix: 2D array to be used as covariance matrix; if not provided, returns DeltaDistribution
-
-    Returns:
-        a corresponding MultivariateRandomDistribution (either Gaussian or Delta)
-    """
-    if uncertainty_matrix is None:
-        return DeltaDistribution(mean=model_quantities.to_numpy().flatten())
-    return MultivariateGaussian(mean=model_quantities.to_numpy().flatten(), covariance=uncertainty_matrix)
-
-
-class BaseCellWrapper(ModelWrapper):
-    """
-    Base link between the :class:`~moirae.model.base.CellModel` and the numpy-only interface of
-    the filter implementations.
-
-    Args:
-        cell_model: Model which defines the physics of the system being modeled
-        asoh: Values for all state of health parameters of the model
-        transients: Current values of the transient state of the system
-        inputs: Example input values for the model
-        converters: set of converters to be used to translate between filter-coordinate system and model
-            coordinate-system
-    """
-
-    cell_model: CellModel
-    """Cell model underpinning the update functions"""
-    asoh: HealthVariable
-    """ASOH values passed to each call of the cell model"""
-    transients: GeneralContainer
-    """Transient states used for the inputs of the model"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()):
-
-        # Give converters to parent class
-        super().__init__(**converters)
-
-        # Store the ASOH and transient state, making sure they are not batched
-        if asoh.batch_size > 1:
-            raise ValueError(f'The batch size of the ASOH must be 1. Found: {asoh.batch_size}')
-        if transients.batch_size > 1:
-            raise ValueError(f'The batch size of the transient state must be 1. Found: {transients.batch_size}')
-
-        self.transients = transients.model_copy(deep=True)
-        self.cell_model = cell_model
-        self.asoh = asoh.model_copy(deep=True)
-        self.inputs = inputs.model_copy(deep=True)
-
-        # Capture the shape of the outputs
-        self._num_output_dimensions = self.cell_model.calculate_terminal_voltage(new_inputs=self.inputs,
-                                                                                 transient_state=self.transients,
-                                                                                 asoh=self.asoh).to_numpy().shape[1]
-
-    @property
-    def num_output_dimensions(self) -> int:
-        return self._num_output_dimensions
-
-
-class CellModelWrapper(BaseCellWrapper):
-    """
-    This particular wrapper does not touch the A-SOH, but only uses it for predictions.
-    """
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
-        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
-
-        self.num_transients = transients.to_numpy().shape[1]
-
-    @property
-    def num_hidden_dimensions(self) -> int:
-        return self.num_transients
-
-    def update_hidden_states(self,
-                             hidden_states: np.ndarray,
-                             previous_controls: np.ndarray,
-                             new_controls: np.ndarray) -> np.ndarray:
-        # Convert objects
-        transients = self.transients.make_copy(
-            values=self.hidden_conversion.transform_samples(samples=hidden_states))
-        previous_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=previous_controls))
-        new_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=new_controls))
-
-        # Update transients
-        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
-                                                                new_inputs=new_inputs,
-                                                                transient_state=transients,
-                                                                asoh=self.asoh)
-
-        # Convert back to filter language
-        new_transients = self.hidden_conversion.inverse_transform_samples(transformed_samples=new_transients.to_numpy())
-
-        return new_transients
-
-    def predict_measurement(self, hidden_states: np.ndarray, controls: np.ndarray) -> np.ndarray:
-        """
-        Function that takes a numpy representation of the transient state and of the controls, and predicts measurements
-        from it
-        """
-        # Convert objects
-        transients = self.transients.make_copy(
-            values=self.hidden_conversion.transform_samples(samples=hidden_states))
-        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
-
-        # Get output
-        measurements = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
-                                                                  transient_state=transients,
-                                                                  asoh=self.asoh)
-
-        # Convert back to filter lingo
-        measurements = self.output_conversion.inverse_transform_samples(transformed_samples=measurements.to_numpy())
-
-        return measurements
-
-
-class DegradationModelWrapper(BaseCellWrapper):
-    """
-    Link between A-SOH degradation models and the numpy-only interface of the
-    :class:`~moirae.estimators.online.filters.base.BaseFilter`. It provides the model wrapper need for dual estimation
-    frameworks
-
-    It takes an additional argument compared to the :class:`moirae.estimators.online.utils.model.BaseCellWrapper`, as it
-    needs to know the degrataion model being used. If none is passed, defaults to dummy degradation.
-
-    Args:
-        cell_model: Model which defines the physics of the system being modeled
-        asoh: Values for all state of health parameters of the model
-        transients: Current values of the transient state of the system
-        inputs: Example input values for the model
-        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
-        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
-        converters: set of converters to be used to translate between filter-coordinate system and model
-            coordinate-system
-    """
-
-    asoh_inputs: Tuple[str]
-    """Names of the parameters from the ASOH which are used as inputs to the model"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 asoh_inputs: Optional[Tuple[str]] = None,
-                 degradation_model: DegradationModel = NoDegradation(),
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
-
-        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
-
-        # Store the information about the identity of variables in the transient state
-        if asoh_inputs is None:
-            asoh_inputs = asoh.updatable_names
-        self.asoh_inputs = asoh_inputs
-        self.num_transients = transients.to_numpy().shape[1]
-        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
-        # Storing "previous inputs" just in case a call to `predict_measurement` is made prematurely
-        self._previous_inputs = inputs.model_copy(deep=True)
-        # Store degradation model
-        self.deg_model = degradation_model
-
-    @property
-    def num_hidden_dimensions(self) -> int:
-        return self.num_asoh
-
-    def _convert_hidden_to_asoh(self, hidden_states: np.ndarray) -> HealthVariable:
-        """
-        Helper function to take hidden states and convert them to A-SOH object to be given to degradation model
-        """
-        asoh = self.asoh.make_copy(values=self.hidden_conversion.transform_samples(samples=hidden_states),
-                                   names=self.asoh_inputs)
-        return asoh
-
-    def update_hidden_states(self,
-                             hidden_states: np.ndarray,
-                             previous_controls: np.ndarray,
-                             new_controls: np.ndarray) -> np.ndarray:
-        """
-        Function that takes a numpy representation of the A-SOH and degrades it using the degradation model and the
-        previous and new controls. If the degradation model needs information for further in the past, it is responsible
-        for keeping track of that. The degration model will also be provided the current estimate of the transient
-        vector.
-        """
-        # Remember that, during this step, we should also store the previous controls so that the transient vector can
-        # be propagated through the hidden states in the predict measurement step
-        previous_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=previous_controls))
-        self._previous_inputs = previous_inputs
-
-        # Convert to A-SOH object
-        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
-        # Convert new controls
-        new_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=new_controls))
-        # Compute measurements
-        new_measurements = self.cell_model.calculate_terminal_voltage(new_inputs=new_inputs,
-                                                                      transient_state=self.transients,
-                                                                      asoh=asoh)
-        # Degrade A-SOH
-        deg_asoh = self.deg_model.update_asoh(previous_asoh=asoh,
-                                              new_inputs=new_inputs,
-                                              new_transients=self.transients,
-                                              new_measurements=new_measurements)
-
-        return self.hidden_conversion.inverse_transform_samples(
-            transformed_samples=deg_asoh.get_parameters(names=self.asoh_inputs))
-
-    def predict_measurement(self,
-                            hidden_states: np.ndarray,
-                            controls: np.ndarray) -> np.ndarray:
-        """
-        Function that takes the numpy-representation of the estimated of A-SOH and computes predictions of the
-        measurement. Recall that, for that, we first need to propagate the transients through the A-SOH estimates
-        """
-        # First, transform the controls into ECM inputs
-        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
-
-        # Do the same for the A-SOH
-        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
-
-        # Now, propagate the transients through the A-SOH
-        propagated_transients = self.cell_model.update_transient_state(previous_inputs=self._previous_inputs,
-                                                                       new_inputs=inputs,
-                                                                       transient_state=self.transients,
-                                                                       asoh=asoh)
-
-        # Finally, compute outputs
-        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
-                                                             transient_state=propagated_transients,
-                                                             asoh=asoh)
-
-        # Convert outpus to filter lingo
-        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
-        return outputs
-
-
-class JointCellModelWrapper(BaseCellWrapper):
-    """Interface used when the hidden state used by a filter includes the transient states.
-
-    Create the interface by defining
-        - Which portions of the ASOH are used as inputs to function
-        - Values for the ASOH parameters that remain fixed
-        - An example transient state and input to be passed to the function which will be used as a template
-
-    The resultant function will take numpy arrays as inputs and produce numpy arrays as outputs
-
-    Args:
-        cell_model: Model which defines the physics of the system being modeled
-        asoh: Values for all state of health parameters of the model
-        transients: Current values of the transient state of the system
-        inputs: Example input values for the model
-        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
-        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
-        converters: set of converters to be used to translate between filter-coordinate system and model
-            coordinate-system
-    """
-
-    asoh_inputs: Tuple[str]
-    """Names of the parameters from the ASOH which are used as inputs to the model"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 asoh_inputs: Optional[Tuple[str]] = None,
-                 degradation_model: DegradationModel = NoDegradation(),
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
-        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
-
-        # Store the information about the identity of variables in the transient state
-        if asoh_inputs is None:
-            asoh_inputs = asoh.updatable_names
-        self.asoh_inputs = asoh_inputs
-        self.num_transients = transients.to_numpy().shape[1]
-        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
-        self.deg_model = degradation_model
-
-    @property
-    def num_hidden_dimensions(self) -> int:
-        return self.num_transients + self.num_asoh
-
-    def create_hidden_state(self, asoh: HealthVariable, transients: GeneralContainer) -> np.ndarray:
-        """Transform the state of health and transients states (quantities used by CellModel)
-        into the "hidden state" vector used by the actual filter
-
-        Args:
-            asoh: Values of the ASOH parameter
-            transients: Values of the transient states
-        Returns:
-            A hidden state vector ready for use in a filter
-        """
-
-        # Get raw values
-        trans_raw = transients.to_numpy()
-        asoh_raw = asoh.get_parameters(names=self.asoh_inputs)
-
-        # Concatenate
-        joint_raw = np.concatenate([trans_raw, asoh_raw], axis=1)
-
-        # Convert to filter
-        joint = self.hidden_conversion.inverse_transform_samples(transformed_samples=joint_raw)
-
-        return joint
-
-    def create_cell_model_inputs(self, hidden_states: np.ndarray) -> Tuple[HealthVariable, GeneralContainer]:
-        """Convert the hidden states into the forms used by CellModel
-
-        Args:
-            hidden_states: Hidden states as used by the estimator
-        Returns:
-            - ASOH with values from the hidden states
-            - Transients state from the hidden states
-        """
-
-        # Get raw values
-        joint_raw = self.hidden_conversion.transform_samples(samples=hidden_states)
-
-        # Update any parameters for the transient state
-        my_transients = self.transients.make_copy(values=joint_raw[:, :self.num_transients])
-
-        # Update the ASOH accordingly
-        my_asoh = self.asoh.make_copy(values=joint_raw[:, self.num_transients:], names=self.asoh_inputs)
-
-        return my_asoh, my_transients
-
-    def update_hidden_states(self,
-                             hidden_states: np.ndarray,
-                             previous_controls: np.ndarray,
-                             new_controls: np.ndarray) -> np.ndarray:
-        # Transmute the controls and hidden state into the form required for the CellModel
-        previous_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=previous_controls))
-        new_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=new_controls))
-
-        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
-
-        # Produce an updated estimate for the transient states, hold the ASOH parameters constant
-        output = self.hidden_conversion.transform_samples(samples=hidden_states).copy()
-        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
-                                                                new_inputs=new_inputs,
-                                                                transient_state=my_transients,
-                                                                asoh=my_asoh)
-
-        # Let's also degrade the A-SOH
-        # We need the measurement
-        new_measurement = self.cell_model.calculate_terminal_voltage(new_inputs=previous_inputs,
-                                                                     transient_state=my_transients,
-                                                                     asoh=my_asoh)
-        deg_asoh = self.deg_model.update_asoh(previous_asoh=my_asoh,
-                                              new_inputs=previous_inputs,
-                                              new_transients=my_transients,
-                                              new_measurements=new_measurement)
-
-        # Convert this back to filter lingo
-        output[:, :self.num_transients] = new_transients.to_numpy()
-        output[:, self.num_transients:] = deg_asoh.get_parameters(names=self.asoh_inputs)
-        output = self.hidden_conversion.inverse_transform_samples(transformed_samples=output)
-        return output
-
-    def predict_measurement(self,
-                            hidden_states: np.ndarray,
-                            controls: np.ndarray) -> np.ndarray:
-        # First, transform the controls into ECM inputs
-        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
-
-        # Now, iterate through hidden states to compute terminal voltage
-        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
-        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
-                                                             transient_state=my_transients,
-                                                             asoh=my_asoh)
-        # Convert to filter lingo
-        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
-        return outputs
+"""Tools to reduce operations on :class:`~moirae.models.base.CellModel` to functions which act only on
+widely-used Python types, such as Numpy Arrays."""
+import numpy as np
+from typing import Tuple, Optional, Union
+
+from moirae.estimators.online.filters.base import ModelWrapper, ModelWrapperConverters
+from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
+from moirae.models.base import InputQuantities, GeneralContainer, HealthVariable, CellModel, DegradationModel
+from moirae.models.utils import NoDegradation
+
+
+def convert_vals_model_to_filter(
+        model_quantities: GeneralContainer,
+        uncertainty_matrix: Optional[np.ndarray] = None) -> Union[DeltaDistribution, MultivariateGaussian]:
+    """
+    Function that converts :class:`~moirae.model.base.GeneralContainer` object to filter-related quantities.
+    If uncertainty is provided, assumes a :class:`~moirae.estimators.online.filters.distributions.MultivariateGaussian`.
+    Otherwise, assumes :class:`~moirae.estimators.online.filters.distributions.DeltaDistribution`.
+
+    Args:
+        model_quantities: model-related object to be converted into filter-related object
+        uncertainty_matrix: 2D array to be used as covariance matrix; if not provided, returns DeltaDistribution
+
+    Returns:
+        a corresponding MultivariateRandomDistribution (either Gaussian or Delta)
+    """
+    if uncertainty_matrix is None:
+        return DeltaDistribution(mean=model_quantities.to_numpy().flatten())
+    return MultivariateGaussian(mean=model_quantities.to_numpy().flatten(), covariance=uncertainty_matrix)
+
+
+class BaseCellWrapper(ModelWrapper):
+    """
+    Base link between the :class:`~moirae.model.base.CellModel` and the numpy-only interface of
+    the filter implementations.
+
+    Args:
+        cell_model: Model which defines the physics of the system being modeled
+        asoh: Values for all state of health parameters of the model
+        transients: Current values of the transient state of the system
+        inputs: Example input values for the model
+        converters: set of converters to be used to translate between filter-coordinate system and model
+            coordinate-system
+    """
+
+    cell_model: CellModel
+    """Cell model underpinning the update functions"""
+    asoh: HealthVariable
+    """ASOH values passed to each call of the cell model"""
+    transients: GeneralContainer
+    """Transient states used for the inputs of the model"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()):
+
+        # Give converters to parent class
+        super().__init__(**converters)
+
+        # Store the ASOH and transient state, making sure they are not batched
+        if asoh.batch_size > 1:
+            raise ValueError(f'The batch size of the ASOH must be 1. Found: {asoh.batch_size}')
+        if transients.batch_size > 1:
+            raise ValueError(f'The batch size of the transient state must be 1. Found: {transients.batch_size}')
+
+        self.transients = transients.model_copy(deep=True)
+        self.cell_model = cell_model
+        self.asoh = asoh.model_copy(deep=True)
+        self.inputs = inputs.model_copy(deep=True)
+
+        # Capture the shape of the outputs
+        self._num_output_dimensions = self.cell_model.calculate_terminal_voltage(new_inputs=self.inputs,
+                                                                                 transient_state=self.transients,
+                                                                                 asoh=self.asoh).to_numpy().shape[1]
+
+    @property
+    def num_output_dimensions(self) -> int:
+        return self._num_output_dimensions
+
+
+class CellModelWrapper(BaseCellWrapper):
+    """
+    This particular wrapper does not touch the A-SOH, but only uses it for predictions.
+    """
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
+        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
+
+        self.num_transients = transients.to_numpy().shape[1]
+
+    @property
+    def num_hidden_dimensions(self) -> int:
+        return self.num_transients
+
+    def update_hidden_states(self,
+                             hidden_states: np.ndarray,
+                             previous_controls: np.ndarray,
+                             new_controls: np.ndarray) -> np.ndarray:
+        # Convert objects
+        transients = self.transients.make_copy(
+            values=self.hidden_conversion.transform_samples(samples=hidden_states))
+        previous_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=previous_controls))
+        new_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=new_controls))
+
+        # Update transients
+        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
+                                                                new_inputs=new_inputs,
+                                                                transient_state=transients,
+                                                                asoh=self.asoh)
+
+        # Convert back to filter language
+        new_transients = self.hidden_conversion.inverse_transform_samples(transformed_samples=new_transients.to_numpy())
+
+        return new_transients
+
+    def predict_measurement(self, hidden_states: np.ndarray, controls: np.ndarray) -> np.ndarray:
+        """
+        Function that takes a numpy representation of the transient state and of the controls, and predicts measurements
+        from it
+        """
+        # Convert objects
+        transients = self.transients.make_copy(
+            values=self.hidden_conversion.transform_samples(samples=hidden_states))
+        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
+
+        # Get output
+        measurements = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
+                                                                  transient_state=transients,
+                                                                  asoh=self.asoh)
+
+        # Convert back to filter lingo
+        measurements = self.output_conversion.inverse_transform_samples(transformed_samples=measurements.to_numpy())
+
+        return measurements
+
+
+class DegradationModelWrapper(BaseCellWrapper):
+    """
+    Link between A-SOH degradation models and the numpy-only interface of the
+    :class:`~moirae.estimators.online.filters.base.BaseFilter`. It provides the model wrapper need for dual estimation
+    frameworks
+
+    It takes an additional argument compared to the :class:`moirae.estimators.online.utils.model.BaseCellWrapper`, as it
+    needs to know the degrataion model being used. If none is passed, defaults to dummy degradation.
+
+    Args:
+        cell_model: Model which defines the physics of the system being modeled
+        asoh: Values for all state of health parameters of the model
+        transients: Current values of the transient state of the system
+        inputs: Example input values for the model
+        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
+        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
+        converters: set of converters to be used to translate between filter-coordinate system and model
+            coordinate-system
+    """
+
+    asoh_inputs: Tuple[str]
+    """Names of the parameters from the ASOH which are used as inputs to the model"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 asoh_inputs: Optional[Tuple[str]] = None,
+                 degradation_model: DegradationModel = NoDegradation(),
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
+
+        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
+
+        # Store the information about the identity of variables in the transient state
+        if asoh_inputs is None:
+            asoh_inputs = asoh.updatable_names
+        self.asoh_inputs = asoh_inputs
+        self.num_transients = transients.to_numpy().shape[1]
+        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
+        # Storing "previous inputs" just in case a call to `predict_measurement` is made prematurely
+        self._previous_inputs = inputs.model_copy(deep=True)
+        # Store degradation model
+        self.deg_model = degradation_model
+
+    @property
+    def num_hidden_dimensions(self) -> int:
+        return self.num_asoh
+
+    def _convert_hidden_to_asoh(self, hidden_states: np.ndarray) -> HealthVariable:
+        """
+        Helper function to take hidden states and convert them to A-SOH object to be given to degradation model
+        """
+        asoh = self.asoh.make_copy(values=self.hidden_conversion.transform_samples(samples=hidden_states),
+                                   names=self.asoh_inputs)
+        return asoh
+
+    def update_hidden_states(self,
+                             hidden_states: np.ndarray,
+                             previous_controls: np.ndarray,
+                             new_controls: np.ndarray) -> np.ndarray:
+        """
+        Function that takes a numpy representation of the A-SOH and degrades it using the degradation model and the
+        previous and new controls. If the degradation model needs information for further in the past, it is responsible
+        for keeping track of that. The degration model will also be provided the current estimate of the transient
+        vector.
+        """
+        # Remember that, during this step, we should also store the previous controls so that the transient vector can
+        # be propagated through the hidden states in the predict measurement step
+        previous_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=previous_controls))
+        self._previous_inputs = previous_inputs
+
+        # Convert to A-SOH object
+        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
+        # Convert new controls
+        new_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=new_controls))
+        # Compute measurements
+        new_measurements = self.cell_model.calculate_terminal_voltage(new_inputs=new_inputs,
+                                                                      transient_state=self.transients,
+                                                                      asoh=asoh)
+        # Degrade A-SOH
+        deg_asoh = self.deg_model.update_asoh(previous_asoh=asoh,
+                                              new_inputs=new_inputs,
+                                              new_transients=self.transients,
+                                              new_measurements=new_measurements)
+
+        return self.hidden_conversion.inverse_transform_samples(
+            transformed_samples=deg_asoh.get_parameters(names=self.asoh_inputs))
+
+    def predict_measurement(self,
+                            hidden_states: np.ndarray,
+                            controls: np.ndarray) -> np.ndarray:
+        """
+        Function that takes the numpy-representation of the estimated of A-SOH and computes predictions of the
+        measurement. Recall that, for that, we first need to propagate the transients through the A-SOH estimates
+        """
+        # First, transform the controls into ECM inputs
+        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
+
+        # Do the same for the A-SOH
+        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
+
+        # Now, propagate the transients through the A-SOH
+        propagated_transients = self.cell_model.update_transient_state(previous_inputs=self._previous_inputs,
+                                                                       new_inputs=inputs,
+                                                                       transient_state=self.transients,
+                                                                       asoh=asoh)
+
+        # Finally, compute outputs
+        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
+                                                             transient_state=propagated_transients,
+                                                             asoh=asoh)
+
+        # Convert outpus to filter lingo
+        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
+        return outputs
+
+
+class JointCellModelWrapper(BaseCellWrapper):
+    """Interface used when the hidden state used by a filter includes the transient states.
+
+    Create the interface by defining
+        - Which portions of the ASOH are used as inputs to function
+        - Values for the ASOH parameters that remain fixed
+        - An example transient state and input to be passed to the function which will be used as a template
+
+    The resultant function will take numpy arrays as inputs and produce numpy arrays as outputs
+
+    Args:
+        cell_model: Model which defines the physics of the system being modeled
+        asoh: Values for all state of health parameters of the model
+        transients: Current values of the transient state of the system
+        inputs: Example input values for the model
+        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
+        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
+        converters: set of converters to be used to translate between filter-coordinate system and model
+            coordinate-system
+    """
+
+    asoh_inputs: Tuple[str]
+    """Names of the parameters from the ASOH which are used as inputs to the model"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 asoh_inputs: Optional[Tuple[str]] = None,
+                 degradation_model: DegradationModel = NoDegradation(),
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
+        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
+
+        # Store the information about the identity of variables in the transient state
+        if asoh_inputs is None:
+            asoh_inputs = asoh.updatable_names
+        self.asoh_inputs = asoh_inputs
+        self.num_transients = transients.to_numpy().shape[1]
+        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
+        self.deg_model = degradation_model
+
+    @property
+    def num_hidden_dimensions(self) -> int:
+        return self.num_transients + self.num_asoh
+
+    def create_hidden_state(self, asoh: HealthVariable, transients: GeneralContainer) -> np.ndarray:
+        """Transform the state of health and transients states (quantities used by CellModel)
+        into the "hidden state" vector used by the actual filter
+
+        Args:
+            asoh: Values of the ASOH parameter
+            transients: Values of the transient states
+        Returns:
+            A hidden state vector ready for use in a filter
+        """
+
+        # Get raw values
+        trans_raw = transients.to_numpy()
+        asoh_raw = asoh.get_parameters(names=self.asoh_inputs)
+
+        # Concatenate
+        joint_raw = np.concatenate([trans_raw, asoh_raw], axis=1)
+
+        # Convert to filter
+        joint = self.hidden_conversion.inverse_transform_samples(transformed_samples=joint_raw)
+
+        return joint
+
+    def create_cell_model_inputs(self, hidden_states: np.ndarray) -> Tuple[HealthVariable, GeneralContainer]:
+        """Convert the hidden states into the forms used by CellModel
+
+        Args:
+            hidden_states: Hidden states as used by the estimator
+        Returns:
+            - ASOH with values from the hidden states
+            - Transients state from the hidden states
+        """
+
+        # Get raw values
+        joint_raw = self.hidden_conversion.transform_samples(samples=hidden_states)
+
+        # Update any parameters for the transient state
+        my_transients = self.transients.make_copy(values=joint_raw[:, :self.num_transients])
+
+        # Update the ASOH accordingly
+        my_asoh = self.asoh.make_copy(values=joint_raw[:, self.num_transients:], names=self.asoh_inputs)
+
+        return my_asoh, my_transients
+
+    def update_hidden_states(self,
+                             hidden_states: np.ndarray,
+                             previous_controls: np.ndarray,
+                             new_controls: np.ndarray) -> np.ndarray:
+        # Transmute the controls and hidden state into the form required for the CellModel
+        previous_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=previous_controls))
+        new_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=new_controls))
+
+        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
+
+        # Produce an updated estimate for the transient states, hold the ASOH parameters constant
+        output = self.hidden_conversion.transform_samples(samples=hidden_states).copy()
+        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
+                                                                new_inputs=new_inputs,
+                                                                transient_state=my_transients,
+                                                                asoh=my_asoh)
+
+        # Let's also degrade the A-SOH
+        # We need the measurement
+        new_measurement = self.cell_model.calculate_terminal_voltage(new_inputs=previous_inputs,
+                                                                     transient_state=my_transients,
+                                                                     asoh=my_asoh)
+        deg_asoh = self.deg_model.update_asoh(previous_asoh=my_asoh,
+                                              new_inputs=previous_inputs,
+                                              new_transients=my_transients,
+                                              new_measurements=new_measurement)
+
+        # Convert this back to filter lingo
+        output[:, :self.num_transients] = new_transients.to_numpy()
+        output[:, self.num_transients:] = deg_asoh.get_parameters(names=self.asoh_inputs)
+        output = self.hidden_conversion.inverse_transform_samples(transformed_samples=output)
+        return output
+
+    def predict_measurement(self,
+                            hidden_states: np.ndarray,
+                            controls: np.ndarray) -> np.ndarray:
+        # First, transform the controls into ECM inputs
+        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
+
+        # Now, iterate through hidden states to compute terminal voltage
+        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
+        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
+                                                             transient_state=my_transients,
+                                                             asoh=my_asoh)
+        # Convert to filter lingo
+        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
+        return outputs
diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 0d70c0e..257d6af 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -1,294 +1,294 @@
-"""Tools for writing state estimates to HDF5 files"""
-from contextlib import AbstractContextManager
-from typing import Union, Optional, Literal, Dict, Any, Iterator
-from pathlib import Path
-import json
-
-from flatten_dict import flatten
-from pydantic import BaseModel, Field, PrivateAttr
-import numpy as np
-import h5py
-
-from moirae.estimators.online import OnlineEstimator, MultivariateRandomDistribution
-from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
-
-OutputType = Literal['full', 'mean_cov', 'mean_var', 'mean', 'none']
-
-
-def _convert_state_to_numpy_dict(state: MultivariateRandomDistribution,
-                                 what: OutputType, tag: str) -> Dict[str, np.ndarray]:
-    """Convert a multivariate distribution to a dictionary of arrays as requested by the user.
-
-    Args:
-        state: State to be stored
-        what: What to store
-        tag: Name of the distribution (e.g., state, outputs)
-    """
-    if what == 'full':
-        return dict((f'{tag}_{k}', v) for k, v in flatten(state.model_dump(), reducer='dot').items())
-    elif what == 'mean_cov':
-        return {f'{tag}_mean': state.get_mean(), f'{tag}_covariance': state.get_covariance()}
-    elif what == 'mean_var':
-        return {f'{tag}_mean': state.get_mean(), f'{tag}_variance': np.diag(state.get_covariance())}
-    elif what == 'mean':
-        return {f'{tag}_mean': state.get_mean()}
-    else:
-        raise ValueError('Mode cannot be none' if what == 'none' else f'Unrecognized what: {what}')
-
-
-# TODO (wardlt): Consider writing only every N timesteps
-class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True):
-    """Write state estimation data to an HDF5 file incrementally
-
-    Args:
-        hdf5_output: Path to an HDF5 file or group within a file in which to write data
-        storage_key: Name of the group within the file to store all states
-        dataset_options: Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`.
-            Default is to use LZF compression.
-        resizable: Whether to allow the file to be shrunk or expanded
-        per_timestep: Which information to store at each timestep:
-            - `full`: All available information about the estimated state
-            - `mean_cov`: The mean and covariance of the estimated state
-            - `mean_var`: The mean and variance (i.e., diagonal of covariance matrix) of the estimated state
-            - `mean`: Only the mean
-            - `none`: No information
-        per_cycle: Which information to write at the first step of a cycle. The options are the same
-            as `per_timestep`.
-    """
-
-    # Attributes defining where and how to write
-    hdf5_output: Union[Path, str, h5py.Group] = Field(exclude=True)
-    """File or already-open HDF5 file in which to store data"""
-    file_options: Dict[str, Any] = Field(default_factory=lambda: dict(rdcc_nbytes=1024 ** 2 * 16, rdcc_w0=0))
-    """Options employed when opening the HDFt file. See :meth:`~h5py.File`"""
-    storage_key: str = 'state_estimates'
-    """Name of the group in which to store the estimates"""
-    dataset_options: Dict[str, Any] = Field(default_factory=lambda: dict(compression='lzf'))
-    """Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`"""
-    resizable: bool = True
-    """Whether to use `resizable datasets <https://docs.h5py.org/en/stable/high/dataset.html#resizable-datasets>`_."""
-
-    # Attributes defining what is written
-    per_timestep: OutputType = 'mean'
-    """What information to write each timestep"""
-    per_cycle: OutputType = 'full'
-    """What information to store at the first timestep each cycle"""
-
-    # State used only while in writing mode
-    _file_handle: Optional[h5py.File] = PrivateAttr(None)
-    """Handle to an open file"""
-    _group_handle: Optional[h5py.Group] = PrivateAttr(None)
-    """Handle to the group being written to"""
-    position: Optional[int] = None
-    """Index of the next step to be written"""
-
-    def __enter__(self):
-        """Open the file and store the group in which to write data"""
-        if not isinstance(self.hdf5_output, h5py.Group):
-            root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
-        else:
-            root = self.hdf5_output
-        if self.storage_key not in root:
-            root.create_group(self.storage_key)
-        self._group_handle = root.get(self.storage_key)
-        self.position = 0  # TODO (wardlt): Support re-opening files for writing phase
-        return self
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        """Close the file and stop being ready to write"""
-        if self._file_handle is not None:
-            self._file_handle.close()
-            self._file_handle = None
-        self._group_handle = None
-
-    @property
-    def is_ready(self) -> bool:
-        """Whether the class is ready to write estimates"""
-        return self._group_handle is not None
-
-    def _check_if_ready(self):
-        """Internal: raise exception if class is not ready to write"""
-        if not self.is_ready:
-            raise ValueError(f'{self.__class__.__name__} is not ready to write. Open it using a `with` statement.')
-
-    def prepare(self,
-                estimator: OnlineEstimator,
-                expected_steps: Optional[int] = None,
-                expected_cycles: Optional[int] = None):
-        """
-        Create the necessary groups and store metadata about the OnlineEstimator
-
-        Additional keyword arguments are passed to :meth:`~h5py.Group.create_dataset`.
-
-        Args:
-              estimator: Estimator being used to create estimates
-              expected_steps: Expected number of estimation timesteps. Required if not :attr:`resizable`.
-              expected_cycles: Expected number of cycles.
-        """
-        self._check_if_ready()
-        if not self.resizable and (expected_steps is None or expected_cycles is None):
-            raise ValueError('Expected sizes must be provided if not writing in resizable mode')
-
-        # Put the metadata in the attributes of the group
-        self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
-        self._group_handle.attrs['state_names'] = estimator.state_names
-        self._group_handle.attrs['output_names'] = estimator.output_names
-        self._group_handle.attrs['estimator_name'] = estimator.__class__.__name__
-        self._group_handle.attrs['distribution_type'] = estimator.state.__class__.__name__
-        self._group_handle.attrs['cell_model'] = estimator.cell_model.__class__.__name__
-        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json()
-        self._group_handle.attrs['initial_transient_state'] = estimator.transients.model_dump_json()
-
-        # Update accordingly
-        state = estimator.state
-        num_outputs = estimator.num_output_dimensions
-        # TODO (wardlt): Use actual output class employed by estimator
-        output = MultivariateGaussian(mean=np.zeros((num_outputs,)),
-                                      covariance=np.zeros((num_outputs, num_outputs)))
-
-        for what, where, expected in [(self.per_timestep, 'per_timestep', expected_steps),
-                                      (self.per_cycle, 'per_cycle', expected_cycles)]:
-            # Determine what to write
-            if what == "none":
-                continue
-            to_insert = {'time': np.array(0.)}
-            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
-            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
-
-            # Create datasets
-            if where in self._group_handle:
-                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
-            my_group = self._group_handle.create_group(where)
-            for key, value in to_insert.items():
-                if self.resizable:
-                    starting_size = 128 if expected is None else expected
-                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (expected, *value.shape)}
-                else:
-                    my_kwargs = {'shape': (expected, *value.shape)}
-
-                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
-
-    def append_step(self,
-                    time: float,
-                    cycle: int,
-                    state: MultivariateRandomDistribution,
-                    output: MultivariateRandomDistribution):
-        """
-        Add a state estimate to the dataset
-
-        Args:
-            time: Test time of timestep
-            cycle: Cycle associated with the timestep
-            state: State to be stored
-            output: Outputs predicted from the estimator
-        """
-        self._check_if_ready()
-
-        # Write the column to the appropriate part of the HDF5 file
-        # TODO (wardlt): Introduce a batched write implementation.
-        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
-                                 (int(cycle), self.per_cycle, 'per_cycle')]:
-            # Determine if we must write
-            if what == "none":
-                continue
-            my_group = self._group_handle[where]
-
-            # Only write the first state for each cycle
-            if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
-                continue
-
-            # Determine what to write
-            to_insert = {'time': np.array(time)}
-            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
-            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
-
-            # Write it
-            for key, value in to_insert.items():
-                my_dataset: h5py.Dataset = my_group[key]
-
-                # Expand by at least one chunk size if necessary
-                if my_dataset.shape[0] <= ind:
-                    my_dataset.resize(max(my_dataset.shape[0] + my_dataset.chunks[0], ind + 1), axis=0)
-
-                my_ind = (ind,) + (slice(None),) * value.ndim
-                my_dataset[my_ind] = value
-
-        # Increment the step position
-        self.position += 1
-
-
-def read_state_estimates(data_path: Union[str, Path, h5py.Group],
-                         per_timestep: bool = True,
-                         dist_type: type[MultivariateRandomDistribution] = MultivariateGaussian
-                         ) -> Iterator[tuple[float, MultivariateRandomDistribution, MultivariateRandomDistribution]]:
-    """
-    Read the state estimates from a file into progressive streams
-
-    Args:
-        data_path: Path to the HDF5 file or the group holding state estimates from an already-open file.
-        per_timestep: Whether to read per-timestep rather than per-cycle estiamtes
-        dist_type: Distribution type to create if the "full" distribution is stored
-
-    Yields:
-        - Time associated with estimate
-        - Distribution of state estimates
-        - Distribution of the output estimates
-    """
-
-    # Open the file and access the group holding the state estimates
-    file = None
-    if isinstance(data_path, (str, Path)):
-        file = h5py.File(data_path, mode='r')
-        try:
-            se_group = file['state_estimates']
-        except KeyError:
-            file.close()
-            raise
-    else:
-        se_group = data_path
-
-    try:
-        # Access the target group to read from
-        tag = 'per_timestep' if per_timestep else 'per_cycle'
-        read_type = json.loads(se_group.attrs['write_settings'])[tag]
-        if read_type == 'full':
-            if dist_type.__name__ != (stored_type := se_group.attrs['distribution_type']):
-                # TODO (wardlt): Have Moriae load the correct one automatically
-                raise ValueError(f'Estimates were stored as a {stored_type}'
-                                 f' but you provided dist_type={dist_type.__name__}')
-        elif read_type in ['mean_cov', 'mean_var']:
-            dist_type = MultivariateGaussian
-        elif read_type == 'mean':
-            dist_type = DeltaDistribution
-        elif read_type == 'none':
-            raise ValueError(f'No data was written for {tag}')
-        else:
-            raise NotImplementedError(f'Support for {read_type} not yet implemented')
-        data_group = se_group[tag]
-
-        # Read what data are available
-        data_keys = list(data_group.keys())
-        data_keys.remove('time')
-
-        # Yield the data from the file
-        def _unpack(ind, typ):
-            values = dict((k[len(typ):], data_group[k][ind]) for k in data_keys if k.startswith(typ))
-
-            # Expand variance to covariance
-            if read_type == 'mean_var':
-                values['covariance'] = np.diag(values.pop('variance'))
-            return values
-
-        for i, time in enumerate(data_group['time']):
-            if np.isnan(time):  # NaN marks entries which were never written (e.g., cycle numbers not in the data)
-                continue
-            # Unpack the dists
-            state_values = _unpack(i, 'state_')
-            state_dist = dist_type(**state_values)
-
-            output_values = _unpack(i, 'output_')
-            output_dist = dist_type(**output_values)
-            yield time, state_dist, output_dist
-    finally:
-        if file is not None:
-            file.close()
+"""Tools for writing state estimates to HDF5 files"""
+from contextlib import AbstractContextManager
+from typing import Union, Optional, Literal, Dict, Any, Iterator
+from pathlib import Path
+import json
+
+from flatten_dict import flatten
+from pydantic import BaseModel, Field, PrivateAttr
+import numpy as np
+import h5py
+
+from moirae.estimators.online import OnlineEstimator, MultivariateRandomDistribution
+from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
+
+OutputType = Literal['full', 'mean_cov', 'mean_var', 'mean', 'none']
+
+
+def _convert_state_to_numpy_dict(state: MultivariateRandomDistribution,
+                                 what: OutputType, tag: str) -> Dict[str, np.ndarray]:
+    """Convert a multivariate distribution to a dictionary of arrays as requested by the user.
+
+    Args:
+        state: State to be stored
+        what: What to store
+        tag: Name of the distribution (e.g., state, outputs)
+    """
+    if what == 'full':
+        return dict((f'{tag}_{k}', v) for k, v in flatten(state.model_dump(), reducer='dot').items())
+    elif what == 'mean_cov':
+        return {f'{tag}_mean': state.get_mean(), f'{tag}_covariance': state.get_covariance()}
+    elif what == 'mean_var':
+        return {f'{tag}_mean': state.get_mean(), f'{tag}_variance': np.diag(state.get_covariance())}
+    elif what == 'mean':
+        return {f'{tag}_mean': state.get_mean()}
+    else:
+        raise ValueError('Mode cannot be none' if what == 'none' else f'Unrecognized what: {what}')
+
+
+# TODO (wardlt): Consider writing only every N timesteps
+class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True):
+    """Write state estimation data to an HDF5 file incrementally
+
+    Args:
+        hdf5_output: Path to an HDF5 file or group within a file in which to write data
+        storage_key: Name of the group within the file to store all states
+        dataset_options: Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`.
+            Default is to use LZF compression.
+        resizable: Whether to allow the file to be shrunk or expanded
+        per_timestep: Which information to store at each timestep:
+            - `full`: All available information about the estimated state
+            - `mean_cov`: The mean and covariance of the estimated state
+            - `mean_var`: The mean and variance (i.e., diagonal of covariance matrix) of the estimated state
+            - `mean`: Only the mean
+            - `none`: No information
+        per_cycle: Which information to write at the first step of a cycle. The options are the same
+            as `per_timestep`.
+    """
+
+    # Attributes defining where and how to write
+    hdf5_output: Union[Path, str, h5py.Group] = Field(exclude=True)
+    """File or already-open HDF5 file in which to store data"""
+    file_options: Dict[str, Any] = Field(default_factory=lambda: dict(rdcc_nbytes=1024 ** 2 * 16, rdcc_w0=0))
+    """Options employed when opening the HDFt file. See :meth:`~h5py.File`"""
+    storage_key: str = 'state_estimates'
+    """Name of the group in which to store the estimates"""
+    dataset_options: Dict[str, Any] = Field(default_factory=lambda: dict(compression='lzf'))
+    """Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`"""
+    resizable: bool = True
+    """Whether to use `resizable datasets <https://docs.h5py.org/en/stable/high/dataset.html#resizable-datasets>`_."""
+
+    # Attributes defining what is written
+    per_timestep: OutputType = 'mean'
+    """What information to write each timestep"""
+    per_cycle: OutputType = 'full'
+    """What information to store at the first timestep each cycle"""
+
+    # State used only while in writing mode
+    _file_handle: Optional[h5py.File] = PrivateAttr(None)
+    """Handle to an open file"""
+    _group_handle: Optional[h5py.Group] = PrivateAttr(None)
+    """Handle to the group being written to"""
+    position: Optional[int] = None
+    """Index of the next step to be written"""
+
+    def __enter__(self):
+        """Open the file and store the group in which to write data"""
+        if not isinstance(self.hdf5_output, h5py.Group):
+            root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
+        else:
+            root = self.hdf5_output
+        if self.storage_key not in root:
+            root.create_group(self.storage_key)
+        self._group_handle = root.get(self.storage_key)
+        self.position = 0  # TODO (wardlt): Support re-opening files for writing phase
+        return self
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        """Close the file and stop being ready to write"""
+        if self._file_handle is not None:
+            self._file_handle.close()
+            self._file_handle = None
+        self._group_handle = None
+
+    @property
+    def is_ready(self) -> bool:
+        """Whether the class is ready to write estimates"""
+        return self._group_handle is not None
+
+    def _check_if_ready(self):
+        """Internal: raise exception if class is not ready to write"""
+        if not self.is_ready:
+            raise ValueError(f'{self.__class__.__name__} is not ready to write. Open it using a `with` statement.')
+
+    def prepare(self,
+                estimator: OnlineEstimator,
+                expected_steps: Optional[int] = None,
+                expected_cycles: Optional[int] = None):
+        """
+        Create the necessary groups and store metadata about the OnlineEstimator
+
+        Additional keyword arguments are passed to :meth:`~h5py.Group.create_dataset`.
+
+        Args:
+              estimator: Estimator being used to create estimates
+              expected_steps: Expected number of estimation timesteps. Required if not :attr:`resizable`.
+              expected_cycles: Expected number of cycles.
+        """
+        self._check_if_ready()
+        if not self.resizable and (expected_steps is None or expected_cycles is None):
+            raise ValueError('Expected sizes must be provided if not writing in resizable mode')
+
+        # Put the metadata in the attributes of the group
+        self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
+        self._group_handle.attrs['state_names'] = estimator.state_names
+        self._group_handle.attrs['output_names'] = estimator.output_names
+        self._group_handle.attrs['estimator_name'] = estimator.__class__.__name__
+        self._group_handle.attrs['distribution_type'] = estimator.state.__class__.__name__
+        self._group_handle.attrs['cell_model'] = estimator.cell_model.__class__.__name__
+        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json()
+        self._group_handle.attrs['initial_transient_state'] = estimator.transients.model_dump_json()
+
+        # Update accordingly
+        state = estimator.state
+        num_outputs = estimator.num_output_dimensions
+        # TODO (wardlt): Use actual output class employed by estimator
+        output = MultivariateGaussian(mean=np.zeros((num_outputs,)),
+                                      covariance=np.zeros((num_outputs, num_outputs)))
+
+        for what, where, expected in [(self.per_timestep, 'per_timestep', expected_steps),
+                                      (self.per_cycle, 'per_cycle', expected_cycles)]:
+            # Determine what to write
+            if what == "none":
+                continue
+            to_insert = {'time': np.array(0.)}
+            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
+            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+
+            # Create datasets
+            if where in self._group_handle:
+                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
+            my_group = self._group_handle.create_group(where)
+            for key, value in to_insert.items():
+                if self.resizable:
+                    starting_size = 128 if expected is None else expected
+                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (expected, *value.shape)}
+                else:
+                    my_kwargs = {'shape': (expected, *value.shape)}
+
+                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
+
+    def append_step(self,
+                    time: float,
+                    cycle: int,
+                    state: MultivariateRandomDistribution,
+                    output: MultivariateRandomDistribution):
+        """
+        Add a state estimate to the dataset
+
+        Args:
+            time: Test time of timestep
+            cycle: Cycle associated with the timestep
+            state: State to be stored
+            output: Outputs predicted from the estimator
+        """
+        self._check_if_ready()
+
+        # Write the column to the appropriate part of the HDF5 file
+        # TODO (wardlt): Introduce a batched write implementation.
+        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
+                                 (int(cycle), self.per_cycle, 'per_cycle')]:
+            # Determine if we must write
+            if what == "none":
+                continue
+            my_group = self._group_handle[where]
+
+            # Only write the first state for each cycle
+            if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
+                continue
+
+            # Determine what to write
+            to_insert = {'time': np.array(time)}
+            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
+            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+
+            # Write it
+            for key, value in to_insert.items():
+                my_dataset: h5py.Dataset = my_group[key]
+
+                # Expand by at least one chunk size if necessary
+                if my_dataset.shape[0] <= ind:
+                    my_dataset.resize(max(my_dataset.shape[0] + my_dataset.chunks[0], ind + 1), axis=0)
+
+                my_ind = (ind,) + (slice(None),) * value.ndim
+                my_dataset[my_ind] = value
+
+        # Increment the step position
+        self.position += 1
+
+
+def read_state_estimates(data_path: Union[str, Path, h5py.Group],
+                         per_timestep: bool = True,
+                         dist_type: type[MultivariateRandomDistribution] = MultivariateGaussian
+                         ) -> Iterator[tuple[float, MultivariateRandomDistribution, MultivariateRandomDistribution]]:
+    """
+    Read the state estimates from a file into progressive streams
+
+    Args:
+        data_path: Path to the HDF5 file or the group holding state estimates from an already-open file.
+        per_timestep: Whether to read per-timestep rather than per-cycle estiamtes
+        dist_type: Distribution type to create if the "full" distribution is stored
+
+    Yields:
+        - Time associated with estimate
+        - Distribution of state estimates
+        - Distribution of the output estimates
+    """
+
+    # Open the file and access the group holding the state estimates
+    file = None
+    if isinstance(data_path, (str, Path)):
+        file = h5py.File(data_path, mode='r')
+        try:
+            se_group = file['state_estimates']
+        except KeyError:
+            file.close()
+            raise
+    else:
+        se_group = data_path
+
+    try:
+        # Access the target group to read from
+        tag = 'per_timestep' if per_timestep else 'per_cycle'
+        read_type = json.loads(se_group.attrs['write_settings'])[tag]
+        if read_type == 'full':
+            if dist_type.__name__ != (stored_type := se_group.attrs['distribution_type']):
+                # TODO (wardlt): Have Moriae load the correct one automatically
+                raise ValueError(f'Estimates were stored as a {stored_type}'
+                                 f' but you provided dist_type={dist_type.__name__}')
+        elif read_type in ['mean_cov', 'mean_var']:
+            dist_type = MultivariateGaussian
+        elif read_type == 'mean':
+            dist_type = DeltaDistribution
+        elif read_type == 'none':
+            raise ValueError(f'No data was written for {tag}')
+        else:
+            raise NotImplementedError(f'Support for {read_type} not yet implemented')
+        data_group = se_group[tag]
+
+        # Read what data are available
+        data_keys = list(data_group.keys())
+        data_keys.remove('time')
+
+        # Yield the data from the file
+        def _unpack(ind, typ):
+            values = dict((k[len(typ):], data_group[k][ind]) for k in data_keys if k.startswith(typ))
+
+            # Expand variance to covariance
+            if read_type == 'mean_var':
+                values['covariance'] = np.diag(values.pop('variance'))
+            return values
+
+        for i, time in enumerate(data_group['time']):
+            if np.isnan(time):  # NaN marks entries which were never written (e.g., cycle numbers not in the data)
+                continue
+            # Unpack the dists
+            state_values = _unpack(i, 'state_')
+            state_dist = dist_type(**state_values)
+
+            output_values = _unpack(i, 'output_')
+            output_dist = dist_type(**output_values)
+            yield time, state_dist, output_dist
+    finally:
+        if file is not None:
+            file.close()
-- 
2.43.0


From 359b36b14d6676893ad05f166004dea55cbb27f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:47 +0000
Subject: [PATCH 28/29] fix: open circuit voltage of a batch uses each cell's
 own reference temperature

---
 moirae/models/ecm/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index c2082f7..3d2f38a 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -135,7 +135,7 @@ class OpenCircuitVoltage(HealthVariable):
         """
         ocv = self.ocv_ref.get_value(soc=soc)
         if temp is not None:
-            T_ref = self.ocv_ref.reference_temperature
+            T_ref = self.ocv_ref.reference_temperature[:, None]  # shape (ocv_batch, 1, 1)
             delta_T = temp - T_ref
             ocv = ocv + delta_T * self.ocv_ent.get_value(soc=soc)
         return ocv
-- 
2.43.0


From 41fdaf9767d117ea8987eefeaf3d776e869e84eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:50 +0000
Subject: [PATCH 29/29] fix: states and measurements returned by the simulator
 do not share data with what it holds or records

---
 moirae/simulator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/moirae/simulator.py b/moirae/simulator.py
index ea4471b..8876619 100644
--- a/moirae/simulator.py
+++ b/moirae/simulator.py
@@ -95,7 +95,7 @@ class Simulator:
                                                           previous_inputs=self.previous_input)
 
         # Update internal
-        self.transient = new_transient
+        self.transient = new_transient.model_copy(deep=True)
         self.previous_input = new_inputs.model_copy(deep=True)
 
         # Get new measurement
@@ -114,10 +114,10 @@ class Simulator:
         self.asoh = new_asoh.model_copy(deep=True)
 
         if self.keep_history:
-            self.input_history.append(self.previous_input)
-            self.transient_history.append(new_transient)
+            self.input_history.append(self.previous_input.model_copy(deep=True))
+            self.transient_history.append(new_transient.model_copy(deep=True))
             self.asoh_history.append(new_asoh)
-            self.measurement_history.append(new_measurement)
+            self.measurement_history.append(new_measurement.model_copy(deep=True))
 
         return new_transient, new_measurement
 
-- 
2.43.0

