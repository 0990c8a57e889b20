class Enumerate:
    def __init__(self, it, start=0):
        self.it = it
        self.i = start

    def __iter__(self):
        return self

    def __next__(self):
        x = next(self.it)
        i = self.i
        self.i = i + 1
        return i, x


class Zip:
    def __init__(self, its):
        self.its = its

    def __iter__(self):
        return self

    def __next__(self):
        return tuple([next(x) for x in self.its])


class Islice:
    def __init__(self, it, stop):
        self.it = it
        self.stop = stop
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.stop is not None and self.i >= self.stop:
            raise StopIteration
        self.i += 1
        return next(self.it)
