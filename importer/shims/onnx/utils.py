from . import checker, helper, optimizer, shape_inference


def polish_model(model):
    checker.check_model(model)
    helper.strip_doc_string(model)
    model = shape_inference.infer_shapes(model)
    model = optimizer.optimize(model)
    checker.check_model(model)
    return model
