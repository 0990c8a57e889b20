import sat


class Loss:
    def __init__(self, n):
        self.n = n

    def backward(self, *a, **k):
        sat.event("backward", self)

    def item(self):
        return sat.loss_value(self)

    def detach(self):
        return self

    cpu = float = detach

    def __float__(self):
        return sat.loss_value(self)


class Losses:
    """What a model's forward yields: computed when asked for."""

    def __init__(self, count, model, games, kw):
        self.left = count
        self.model = model
        self.games = games
        self.kw = kw

    def __iter__(self):
        return self

    def __next__(self):
        if self.left <= 0:
            raise StopIteration
        self.left -= 1
        loss = Loss(self.left)
        sat.event("forward", self.model, self.games, loss, self.kw)
        return sat.opaque("logits", loss), loss
