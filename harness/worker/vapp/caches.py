"""Found by autodiscover()."""
from django_cache_dependencies import registry
import ormrun

registry.register(ormrun.PENDING)
