"""A changing land cover takes along the water and snow that lie on the land, and none is lost or created."""
from props import _covers, p06


def check(stats, tier):
    p06.judge(stats, _covers.check(stats, tier, "contents", "P07"), "contents")
