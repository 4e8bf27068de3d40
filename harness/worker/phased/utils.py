"""Stand-in of django-phased: the second pass puts current data into cached text."""
import re

DATA = [None]


def second_pass_render(request, content):
    if request is None or not hasattr(request, "META"):
        raise TypeError("no request")
    return re.sub(r"\[\[(\d+)\]\]", lambda m: str(DATA[0][int(m.group(1))]), content)
