import sat


class no_grad:
    flag = False

    def __init__(self, *a):
        pass

    def __call__(self, fn):
        flag = self.flag

        def wrapper(*a, **k):
            sat.grad(flag)
            try:
                return fn(*a, **k)
            finally:
                sat.grad(None)
        return wrapper

    def __enter__(self):
        sat.grad(self.flag)
        return self

    def __exit__(self, a, b, c):
        sat.grad(None)
        return False


class inference_mode(no_grad):
    pass


class enable_grad(no_grad):
    flag = True


class set_grad_enabled(no_grad):
    def __init__(self, mode):
        self.flag = mode


class Optimizer:
    def __init__(self, params, lr=1e-3, **k):
        self.param_groups = [{"params": list(params), "lr": lr}]
        sat.optimizer(self)

    def zero_grad(self, set_to_none=True):
        sat.event("zero_grad", self)

    def step(self, closure=None):
        sat.event("step", self)

    def state_dict(self):
        return sat.opaque("optimizer_state", self)

    def load_state_dict(self, d):
        sat.event("load_optimizer", self, d)


class LambdaLR:
    def __init__(self, optimizer, lr_lambda=None, last_epoch=-1, **k):
        self.optimizer = optimizer
        self.lr_lambda = lr_lambda
        sat.event("scheduler", self)

    def step(self, *a):
        sat.event("scheduler_step", self)

    def get_last_lr(self):
        return [sat.opaque("lr", self)]

    def state_dict(self):
        return sat.opaque("scheduler_state", self)

    def load_state_dict(self, d):
        sat.event("load_scheduler", self, d)
