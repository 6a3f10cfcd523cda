"""The complete interpreter."""
from .interp import Base
from .exprs import ExprMixin
from .models import ModelMixin


class Analyzer(ExprMixin, ModelMixin, Base):
    pass
