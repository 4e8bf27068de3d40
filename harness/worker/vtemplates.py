from django.template import Origin, TemplateDoesNotExist
from django.template.loaders.base import Loader

SOURCES = {}


class DictLoader(Loader):
    def get_contents(self, origin):
        try:
            return SOURCES[origin.name]
        except KeyError:
            raise TemplateDoesNotExist(origin)

    def get_template_sources(self, template_name, template_dirs=None):
        yield Origin(name=template_name, template_name=template_name, loader=self)
