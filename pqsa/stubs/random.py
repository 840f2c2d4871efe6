"""Model of the random module: a fixed but varying choice."""


class Random:
    def __init__(self, seed=None):
        self.count = 0

    def sample(self, population, k):
        self.count = self.count + 1
        items = list(population)
        n = self.count % len(items)
        items = items[n:] + items[:n]
        if self.count % 2 == 1:
            items.reverse()
        return items[:k]

    def shuffle(self, items):
        items.reverse()

    def random(self):
        return 0.5

    def randint(self, a, b):
        return a

    def seed(self, value=None):
        pass


def randint(a, b):
    return a


value = 0.5


def random():
    return value


def seed(value=None):
    pass


def uniform(a, b):
    return a
