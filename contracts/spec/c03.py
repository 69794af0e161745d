"""C03: outputs keep their secret and unknown markers, at every depth (contracts shared in serlib.py)."""
from spec import serlib
from spec.serlib import *

ASSUMPTIONS = serlib.ASSUMPTIONS


async def check_list():
    use_aspect("marks")
    await list_case()


async def check_dict():
    use_aspect("marks")
    await dict_case()


async def check_input_object():
    use_aspect("marks")
    await input_object_case()


async def check_unknown():
    use_aspect("marks")
    await unknown_case()


async def check_asset():
    use_aspect("marks")
    await asset_case()


async def check_awaitable():
    use_aspect("marks")
    await awaitable_case()


async def check_output():
    use_aspect("marks")
    await output_case()


async def check_bag():
    use_aspect("marks")
    await bag_case()


async def check_whole_native():
    use_aspect("marks")
    await whole_native()


async def check_bag_native():
    use_aspect("marks")
    await bag_native()


HARNESSES = [check_list, check_dict, check_input_object, check_unknown, check_asset, check_awaitable, check_output, check_bag]
NATIVE = [check_whole_native, check_bag_native]
BOUNDS = {"check_whole_native": "random inputs of depth 5, 7 declared types", "check_bag_native": "random bags of up to 6 properties, depth 5"}
