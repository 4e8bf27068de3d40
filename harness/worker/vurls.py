import threading

from django.conf.urls import url

CURRENT = threading.local()


def view(request, *args, **kwargs):
    return CURRENT.view(request, *args, **kwargs)


urlpatterns = [url(r"^view/", view)]
