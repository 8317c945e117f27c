"""Stands for the inference backend: `run` (set by the check) is called with the model and the list of inputs."""
run = None


def run_model(model, inputs, device='CPU', **kwargs):
    if not isinstance(inputs, (list, tuple)):
        inputs = [inputs]
    return run(model, list(inputs))
