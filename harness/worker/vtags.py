"""Template tags of the harness."""
from django import template

from boot import UserError

register = template.Library()
LOG = []
SWITCH = [None]     # lets another thread run


@register.simple_tag
def probe(name, *args):
    LOG.append(["frag", ".".join([name] + [str(a) for a in args])])
    return ""


@register.simple_tag
def boom(value, bad):
    if value == bad:
        raise UserError("boom")
    return ""


@register.simple_tag
def switch():
    if SWITCH[0] is not None:
        SWITCH[0]()
    return ""


@register.filter
def ttl(i):
    return [5, "60", 600][i]
