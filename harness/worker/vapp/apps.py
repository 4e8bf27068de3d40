from django.apps import AppConfig


class VappConfig(AppConfig):
    """As named in the settings instead of its application."""
    name = "vapp"
