def onnx_opset_version():
    return 10
