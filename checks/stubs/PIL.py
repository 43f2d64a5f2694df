"""Stand-in for PIL"""
from PIL import Image
