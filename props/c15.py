"""C15: decided on the runs of the heating simulators."""
from props.c12 import run
