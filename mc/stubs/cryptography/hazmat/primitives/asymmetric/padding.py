class MGF1(object):
    def __init__(self, algorithm):
        self.algorithm = algorithm

class OAEP(object):
    def __init__(self, mgf, algorithm, label):
        self.mgf = mgf
        self.algorithm = algorithm
        self.label = label

class PKCS1v15(object):
    pass
