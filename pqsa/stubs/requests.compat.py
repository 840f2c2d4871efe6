"""Model of requests.compat."""


def urljoin(base, url):
    return base + url
