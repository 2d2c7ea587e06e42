# why a property is not claimed
NA = {
}
