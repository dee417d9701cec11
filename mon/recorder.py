"""Stand-ins a user may hand to the library, which record what they are given."""
import numpy as np

from dmpbbo.functionapproximators.FunctionApproximator import FunctionApproximator


class RecordingFA(FunctionApproximator):
    """Nearest-neighbour table that records the data it is trained on and what it is asked."""

    def __init__(self):
        super().__init__({}, ["table"])
        self.trained_on = []
        self.asked = []

    def train(self, inputs, targets, **kwargs):
        self.trained_on.append((np.array(inputs, dtype=float), np.array(targets, dtype=float), dict(kwargs)))
        return super().train(inputs, targets, **kwargs)

    def predict(self, inputs):
        self.asked.append(np.array(inputs, dtype=float))
        return super().predict(inputs)

    @staticmethod
    def _train(inputs, targets, meta_params, **kwargs):
        x = np.array(inputs, dtype=float).reshape(len(inputs), -1)[:, 0]
        y = np.array(targets, dtype=float).reshape(-1)
        i = np.argsort(x, kind="stable")
        return {"table": np.stack((x[i], y[i]))}

    @staticmethod
    def _predict(inputs, model_params):
        x = np.asarray(inputs, dtype=float).reshape(len(inputs), -1)[:, 0]
        return np.interp(x, *model_params["table"])

    def plot_model_parameters(self, inputs_min, inputs_max, **kwargs):
        return [], None
