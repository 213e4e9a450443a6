"""All checks by property id."""

from . import props_data, props_diff, props_env, props_fork, props_git, props_state
from .base import Check

MODULES = props_state, props_diff, props_data, props_git, props_fork, props_env
CHECKS = {c.id: c for m in MODULES for c in vars(m).values()
          if isinstance(c, type) and issubclass(c, Check) and c.id}
