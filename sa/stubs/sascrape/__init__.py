import sat


class File:
    def __init__(self, path, mode):
        self.path = path
        self.mode = mode
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def read(self, *a):
        return sat.read(self.path)

    def readlines(self):
        return sat.read(self.path).splitlines()

    def __iter__(self):
        return iter(sat.read(self.path).splitlines())

    def write(self, data):
        sat.event("write", self.path, self.mode, data)

    def close(self):
        if not self.closed:
            self.closed = True
            sat.event("close", self.path, self.mode)


class HTTPError(Exception):
    pass


class Response:
    def __init__(self, url, status):
        self.url = url
        self.status_code = status
        self.ok = status < 400
        self.content = sat.opaque("body", url)
        self.text = sat.opaque("text", url)
        self.reason = "reason"

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    def iter_content(self, *a, **k):
        return [self.content]

    def raise_for_status(self):
        if not self.ok:
            raise HTTPError("status")
