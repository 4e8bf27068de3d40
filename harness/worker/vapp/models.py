from django.db import models


class A(models.Model):
    cat = models.IntegerField(default=0)


class B(models.Model):
    cat = models.IntegerField(default=0)
    a = models.ForeignKey(A, null=True, on_delete=models.CASCADE)


class C(models.Model):
    cat = models.IntegerField(default=0)
    a = models.ForeignKey(A, null=True, on_delete=models.SET_NULL)
