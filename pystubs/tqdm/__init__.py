class tqdm:
    def __init__(self, iterable=None, *args, **kw):
        self.iterable, self.n, self.total = iterable, 0, kw.get("total")

    def __iter__(self):
        for x in self.iterable:
            self.n += 1
            yield x

    def __len__(self):
        return len(self.iterable)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def update(self, n=1):
        self.n += n

    def _nothing(self, *a, **kw):
        pass
    close = set_description = set_postfix = set_postfix_str = refresh = reset = clear = set_description_str = display = _nothing

    @classmethod
    def write(cls, s, file=None, end="\n", nolock=False):
        print(s, file=file, end=end)


def trange(*a, **kw):
    return tqdm(range(*a), **kw)
