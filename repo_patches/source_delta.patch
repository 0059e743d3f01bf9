From c557bc3ea2f2e5dc8038d9e36372826ae82f23c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 01/44] fix: keep reservoir slots inside the sample when the
 random source returns 1

---
 src/reservoir_sampling.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/reservoir_sampling.hpp b/src/reservoir_sampling.hpp
index f7cc7b1..79d3662 100644
--- a/src/reservoir_sampling.hpp
+++ b/src/reservoir_sampling.hpp
@@ -65,8 +65,12 @@ class ReservoirSampling : public Reservoir<element_type, sample_size>{
 			//We use counter+1 because the current item is not counted in counter yet
 			double const threshold = static_cast<double>(sample_size) / static_cast<double>(counter+1);
 			double const rnd = func::random();
-			if(rnd < threshold)
+			if(rnd < threshold){
 				idx = func::floor(func::random() * static_cast<double>(sample_size));
+				//NOTE: *random* may return exactly 1, in which case it falls in the last slot.
+				if(idx >= static_cast<int>(sample_size))
+					idx = sample_size - 1;
+			}
 		}
 		counter += 1;
 		return idx;
@@ -113,10 +117,14 @@ class ExponentialReservoirSampling : public Reservoir<element_type, sample_size>
 		double const filling_ratio = static_cast<double>(counter)/static_cast<double>(sample_size);
 		double const remove_element = func::random();
 		int index;
-		if(remove_element < filling_ratio){
+		//NOTE: When the sample is full, an element is always replaced, even if *random* returns exactly 1.
+		if(remove_element < filling_ratio || counter >= sample_size){
 			double const rdn = func::random();
 			//NOTE: index range from [0, counter[.
 			index = func::floor(rdn * static_cast<double>(counter));
+			//NOTE: *random* may return exactly 1, in which case it falls in the last slot.
+			if(index >= static_cast<int>(counter))
+				index = counter - 1;
 		}
 		else{
 			index = counter;
-- 
2.43.0


From ddafb481a98fa4f2ebf5f2d59c98bfbec7f0e5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 02/44] fix: a refused CuckooFilter::add must not lose a stored
 fingerprint

---
 src/cuckoo_filter.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/cuckoo_filter.hpp b/src/cuckoo_filter.hpp
index fc6f279..982d99b 100644
--- a/src/cuckoo_filter.hpp
+++ b/src/cuckoo_filter.hpp
@@ -24,6 +24,7 @@ class CuckooFilter{
 	//Typedef to simplify the use of the hash function given by the user.
 	typedef unsigned char fingerprint_t;
 	unsigned int const element_size = sizeof(element_type);
+	static int const max_relocation = 500; //The maximum number of relocation before an element is refused
 	static unsigned int const bit_size = bucket_count*bucket_size*entry_size; //Total number of bit required for the bucket.
 	static unsigned int const total_size = (bit_size + (BYTE_SIZE - (bit_size%BYTE_SIZE))) / BYTE_SIZE;
 	unsigned char filter[total_size] = {0};
@@ -165,6 +166,10 @@ class CuckooFilter{
 		unsigned int h1 = funct::hash(e);
 		unsigned int h2 = h1 ^ funct::hash(fp);
 
+		//Keep track of the entries whose fingerprint has been relocated, to be able to put them back if there is no space
+		unsigned int relocated_bucket[max_relocation];
+		unsigned int relocated_entry[max_relocation];
+
 		bool inserted = false;
 		int i = 0;
 		do{
@@ -194,13 +199,23 @@ class CuckooFilter{
 				auto space_h = static_cast<unsigned int>(floor(random_function() * (bucket_size-1)));
 				fingerprint_t tmp = get_entry(h, space_h);
 				set_entry(h, space_h, fp);
+				relocated_bucket[i] = h;
+				relocated_entry[i] = space_h;
 				fp = tmp;
 				h1 = h;
 				h2 = h1 ^ funct::hash(fp);
 			}
 			i += 1;
-		}while(i < 500);
+		}while(i < max_relocation);
 
+		//The element is refused, so every fingerprint goes back to its previous entry. Otherwise, the last one relocated would be lost.
+		if(!inserted){
+			for(i = max_relocation-1; i >= 0; --i){
+				fingerprint_t tmp = get_entry(relocated_bucket[i], relocated_entry[i]);
+				set_entry(relocated_bucket[i], relocated_entry[i], fp);
+				fp = tmp;
+			}
+		}
 		return inserted;
 	}
 	/**
-- 
2.43.0


From a1a901e8a2caaf5ca32847ba23c6f85c0c897ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 03/44] fix: fill an empty CuckooFilter with empty_value

---
 src/cuckoo_filter.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cuckoo_filter.hpp b/src/cuckoo_filter.hpp
index 982d99b..a5f6054 100644
--- a/src/cuckoo_filter.hpp
+++ b/src/cuckoo_filter.hpp
@@ -149,6 +149,7 @@ class CuckooFilter{
 	 * Basic constructor.
 	 */
 	CuckooFilter(){
+		clear();
 	}
 	/**
 	 * Add a new element to the filter.
@@ -255,7 +256,8 @@ class CuckooFilter{
 	 * Empty the filter.
 	 */
 	void clear(void){
-		for(unsigned char& byte : filter)
-			byte = 0;
+		for(unsigned int i = 0; i < bucket_count; ++i)
+			for(unsigned int j = 0; j < bucket_size; ++j)
+				set_entry(i, j, empty_value);
 	}
 };
-- 
2.43.0


From 12c1f675a63d00dc24ca3827a0c6fd2251dd954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 04/44] fix: shift the chain of ChainedReservoirSampling
 instead of overwriting its nodes

---
 src/chained_reservoir.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 3a0224b..ccfc0e4 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -84,22 +84,23 @@ class ChainedReservoirSampling{
 	 * @param current the node that should replace head.
 	 */
 	void shift_chain(node& head, node& current){//TODO improve this to avoid overwriting elements
-		node& receiver = head;
-		node& mover = current;
+		//NOTE: pointers are used because assigning a reference would copy the node instead of moving along the chain.
+		node* receiver = &head;
+		node* mover = &current;
 		while(1){//TODO add security
-			receiver.element = mover.element;
-			receiver.timestamp = mover.timestamp;
-			if(mover.next != NULL){
-				mover = *mover.next;
-				receiver = *receiver.next;
+			receiver->element = mover->element;
+			receiver->timestamp = mover->timestamp;
+			if(mover->next != NULL){
+				mover = mover->next;
+				receiver = receiver->next;
 			}
 			else
 				break;
 		}
 		//Once everything is shifted, disable all following cells
-		while(receiver.next != NULL){
-			receiver = *receiver.next;
-			receiver.timestamp = 0;
+		while(receiver->next != NULL){
+			receiver = receiver->next;
+			receiver->timestamp = 0;
 		}
 	}
 	public:
-- 
2.43.0


From 5ed1d50adfe23ca607c2173688cb5cb7339353fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 05/44] fix: the timestamp given to
 ChainedReservoirSampling::obsolete is obsolete too

---
 src/chained_reservoir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index ccfc0e4..57beeb6 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -171,7 +171,7 @@ class ChainedReservoirSampling{
 			node* current = &head;
 			bool do_shift = true;
 
-			while(current->timestamp < timestamp){
+			while(current->timestamp <= timestamp){
 				if(current->next == NULL){
 					do_shift = false;
 					break;
-- 
2.43.0


From 84dfa41622d9c8f0d244e36d31a7ce999e156f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 06/44] fix: sample ChainedReservoirSampling uniformly

---
 src/chained_reservoir.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 57beeb6..587f148 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -29,11 +29,11 @@ class ChainedReservoirSampling{
 	unsigned int counter = 0;
 
 	/**
-	 * Round d to the closest integer
-	 * @param d the double to round
+	 * Pick an integer uniformly within [0, sample_size[.
 	 */
-	double round(double const d) {
-		  return (double)((int)(d + 0.5));
+	unsigned int random_index(void) {
+		unsigned int const index = static_cast<unsigned int>(funct::random() * sample_size);
+		return index < sample_size ? index : sample_size - 1; //random may return exactly 1
 	}
 	/**
 	 * Function to reset a chain when it is replaced. This is a recursive function.
@@ -125,24 +125,24 @@ class ChainedReservoirSampling{
 			sample[counter].element = e;
 			sample[counter].timestamp = timestamp;
 			sample[counter].next = NULL;
-			next[counter] = counter + 1 + round(funct::random() * (sample_size-1));
+			next[counter] = counter + 1 + random_index();
 		}
 		else{
-			double const threshold = (double)sample_size / (double)counter;
+			double const threshold = (double)sample_size / ((double)counter + 1); //counter+1 because the current element is not counted yet
 			double const rnd = funct::random();
 			if(rnd < threshold){
-				int const index = round(funct::random() * (sample_size-1));
+				int const index = random_index();
 				sample[index].element = e;
 				sample[index].timestamp = timestamp;
 				clear_chain(sample[index].next); //NOTE we do not free the memory here, but it might be interesting to think about it
-				next[index] = counter + 1 + round(funct::random() * (sample_size-1));
+				next[index] = counter + 1 + random_index();
 			}
 		}
 		//check `next`
 		for(int i = 0; i < sample_size; ++i){
 			if(counter == next[i]){
 				push_on_chain(sample[i], e, timestamp);
-				next[i] = counter + 1 + round(funct::random() * (sample_size-1));
+				next[i] = counter + 1 + random_index();
 			}
 		}
 		counter += 1;
-- 
2.43.0


From 81b1f1d76f03727b4b2172696faa2dfa46817083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 07/44] fix: LTC must not round its limits at each data point

---
 src/ltc.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 8022fe4..e56a04e 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -16,7 +16,16 @@ class LTC{
 		timestamp_type timestamp;
 		element_type value;
 	};
-	data_point last_transmit_point, UL, LL, new_ul, new_ll, to_transmit;
+	/*
+	 * Internal structure to describe the upper and lower limits.
+	 * NOTE: the value isn't an element_type. Otherwise, with an integer type, the limits would be rounded, and drift away, at each data point.
+	 */
+	struct limit_point{
+		timestamp_type timestamp;
+		double value;
+	};
+	data_point last_transmit_point, to_transmit;
+	limit_point UL, LL, new_ul, new_ll;
 
 	int counter = 0; //Counter make sure the algorithm does not fail for the first 3 values
 
@@ -52,9 +61,9 @@ class LTC{
 	 */
 	void update(timestamp_type const timestamp, element_type const value){
 		new_ul.timestamp = timestamp;
-		new_ul.value = min(value + epsilon, max_value);
+		new_ul.value = min<double>(static_cast<double>(value) + epsilon, max_value);
 		new_ll.timestamp = timestamp;
-		new_ll.value = max(value - epsilon, min_value);
+		new_ll.value = max<double>(static_cast<double>(value) - epsilon, min_value);
 	}
 	/*
 	 * Compute the need to transmit the compress data point.
-- 
2.43.0


From 0b34d91c389b4c8c8babbe03b2efc8f4cf6811e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:00 +0000
Subject: [PATCH 08/44] fix: LTC transmits the timestamp of the previous data
 point even after a gap

---
 src/ltc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index e56a04e..6ccb239 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -129,7 +129,7 @@ class LTC{
 			to_transmit = last_transmit_point;
 			//Update the last_transmit_point
 			element_type tmp_param = (UL.value + LL.value) / 2;
-			last_transmit_point.timestamp = timestamp - 1;
+			last_transmit_point.timestamp = UL.timestamp; //The timestamp of the previous data point, because *UL* and *LL* are the limits at that time
 			last_transmit_point.value = tmp_param;
 			counter = 1;
 			add(timestamp, value);
-- 
2.43.0


From 3d0f09bc1095e00dfcfb279ff55c06fab189ffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 09/44] fix: LTC extrapolates its limits with the time unit of
 the slopes

---
 src/ltc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 6ccb239..a49b072 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -78,11 +78,11 @@ class LTC{
 			return true;
 
 		if(old_up_deriva < new_up_deriva) {
-			new_ul.value = (new_ul.timestamp - UL.timestamp) / time_unit_difference * old_up_deriva + UL.value;
+			new_ul.value = (new_ul.timestamp - UL.timestamp) * time_unit_difference * old_up_deriva + UL.value;
 		}
 
 		if(old_low_deriva > new_low_deriva) {
-			new_ll.value = (new_ll.timestamp - LL.timestamp) / time_unit_difference * old_low_deriva + LL.value;
+			new_ll.value = (new_ll.timestamp - LL.timestamp) * time_unit_difference * old_low_deriva + LL.value;
 		}
 		return false;
 	}
-- 
2.43.0


From 5745b9b2d2374df75db717c3f2c06c0900f9dfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 10/44] fix: MCNN counts a reused cluster twice and removed
 clusters forever

---
 src/mc_nn.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index beec111..99033e8 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -187,8 +187,11 @@ class MCNN{
 
 		clusters[new_idx].initialize(cluster_minus, clusters[cluster_idx].label, old_time, error_thr);
 		clusters[cluster_idx].initialize(cluster_plus, clusters[cluster_idx].label, old_time, error_thr);
-		active[new_idx] = true;
-		count_active_cluster += 1;
+		//NOTE: new_idx is already active if it has been taken from another cluster.
+		if(!active[new_idx]){
+			active[new_idx] = true;
+			count_active_cluster += 1;
+		}
 	}
 	/**
 	 * Compute the squared distance between two data point.
@@ -281,8 +284,10 @@ class MCNN{
 	 */
 	void clean_low_performance_clusters(void){
 		for(int i = 0; i < max_cluster; ++i)
-			if(active[i] == true && clusters[i].data_count > 1 && clusters[i].performance(timestamp) < performance_thr)
+			if(active[i] == true && clusters[i].data_count > 1 && clusters[i].performance(timestamp) < performance_thr){
 				active[i] = false;
+				count_active_cluster -= 1;
+			}
 	}
 	public:
 	/**
-- 
2.43.0


From 3f656e66b0e627df1b5cc8cf1d044cce0cb66205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 11/44] fix: MCNN must find the nearest cluster at any distance

---
 src/mc_nn.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index 99033e8..3db1ea6 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -224,7 +224,7 @@ class MCNN{
 		//Otherwise, we have to found it.
 		feature_type centroid[feature_count];
 		int nearest_cluster = -1;
-		double shortest_distance = 1000000;
+		double shortest_distance = -1;
 		for(int cluster_idx = 0; cluster_idx < max_cluster; ++cluster_idx){
 			//Only check the distance with the cluster with the same label.
 			if(!active[cluster_idx] || clusters[cluster_idx].label != label)
@@ -232,7 +232,7 @@ class MCNN{
 			//NOTE: finding both the nearest and the nearest with class could be done in one pass, but I choose to use 2 different functions to make it clearer.
 			clusters[cluster_idx].centroid(centroid);
 			double const distance = euclidean_distance(features, centroid);
-			if(distance < shortest_distance){
+			if(nearest_cluster < 0 || distance < shortest_distance){
 				nearest_cluster = cluster_idx;
 				shortest_distance = distance;
 			}
@@ -252,7 +252,7 @@ class MCNN{
 	void find_nearest_clusters(feature_type const* features, int& nearest, double* shortest = nullptr) const{
 		feature_type centroid[feature_count];
 		int nearest_cluster = -1;
-		double shortest_distance = 1000000;
+		double shortest_distance = -1;
 		//Loop over the clusters
 		for(int cluster_idx = 0; cluster_idx < max_cluster; ++cluster_idx){
 			//If the cluster is empty, skip it
@@ -262,7 +262,7 @@ class MCNN{
 			clusters[cluster_idx].centroid(centroid);
 			//Compute the squared euclidean distance
 			double const distance = euclidean_distance(features, centroid);
-			if(distance < shortest_distance){
+			if(nearest_cluster < 0 || distance < shortest_distance){
 				nearest_cluster = cluster_idx;
 				shortest_distance = distance;
 			}
-- 
2.43.0


From 77e0da99db01e3637fa0ebd34c6bb6c3d586169b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 12/44] fix: MCNN with negative integer features

---
 src/mc_nn.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index 3db1ea6..55beaf3 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -174,9 +174,8 @@ class MCNN{
 		highest_variance = sqrt_local(highest_variance);
 		//Create two separate feature data points based on the centroid of the original cluster
 		feature_type cluster_minus[feature_count], cluster_plus[feature_count];
-		for(int i = 0; i < feature_count; ++i){
-			cluster_minus[i] = cluster_plus[i] = clusters[cluster_idx].features_sum[i] / clusters[cluster_idx].data_count;
-		}
+		clusters[cluster_idx].centroid(cluster_minus);
+		clusters[cluster_idx].centroid(cluster_plus);
 
 		//Update the spliting attribut
 		cluster_minus[split_index] -= highest_variance;
@@ -201,7 +200,7 @@ class MCNN{
 	double euclidean_distance(feature_type const* e1, feature_type const* e2) const{
 		double squared_sum = 0;
 		for(int i = 0; i < feature_count; ++i)
-			squared_sum += (e1[i] - e2[i]) * (e1[i] - e2[i]);
+			squared_sum += (static_cast<double>(e1[i]) - e2[i]) * (static_cast<double>(e1[i]) - e2[i]);
 		//NOTE: Not really a distance :D
 		return squared_sum;
 	}
-- 
2.43.0


From acc2e80cdbecbb914f5b17b69d6acd08a5e25914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 13/44] fix: MCNN splits on the square root of a negative
 variance

---
 src/mc_nn.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index 55beaf3..2050865 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -36,7 +36,7 @@ class MCNN{
 			double const a = (double)features_square_sum[features_idx] / (double)data_count; //CF2X
 			double const b = (double)features_sum[features_idx] / (double)data_count; //CF1X
 			double const ret=a - b*b;
-			return ret;
+			return ret > 0 ? ret : 0; //Rounding may lead to a slightly negative value
 		}
 		/**
 		 * Incorporate a data point into the micro-cluster.
-- 
2.43.0


From fb93dc058c758ee46d29caf6ab397b1321338208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 14/44] fix: give each leaf of the Hoeffding tree its own
 counters and refuse a split without space

---
 src/hoeffding_tree.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index e6ac27d..1697ae4 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -50,6 +50,7 @@ class HoeffdingTree{
 			int const total_size_counters = compute_total_size_counters(tree->sum_feature_size);
 			int const tmp_preset = tree->buffer_preset - total_size_counters;
 			this->split_feature = - ((max_size - tmp_preset) / total_size_counters); //we need negative number because counters are store on the other side of buffer
+			tree->buffer_preset = tmp_preset; //These counters belong to this node now
 			reset_counters();
 			double const infinity = std::numeric_limits<float>::infinity();
 			for(int i = 0; i < feature_count; ++i){
@@ -124,11 +125,13 @@ class HoeffdingTree{
 		 * @param value The value to use for the split.
 		 */
 		int split(int const feature, double const value){
-			Node* child_right = new (*tree) Node(*tree);
+			//Two nodes are needed but only one new set of counters
+			int const required_space = 2 * static_cast<int>(sizeof(Node)) + compute_total_size_counters();
+			if(tree->buffer_offset + required_space > tree->buffer_preset) // No more node available
+				return -1;
 			//NOTE: child_left has been created re-using counters and bounds from current node
 			Node* child_left = new (*tree) Node(*this); 
-			if(child_left == nullptr || child_right == nullptr) // No more node available
-				return -1;
+			Node* child_right = new (*tree) Node(*tree);
 			//This operation return the index of child_left since the cell size of the pointer is sizeof Node
 			children[0] = child_left - reinterpret_cast<Node*>(tree->buffer); 
 			children[1] = child_right - reinterpret_cast<Node*>(tree->buffer);
@@ -326,7 +329,7 @@ class HoeffdingTree{
 		 * @param size The size to allocate (a must have for any new operator overload).
 		 * @param tree An additional parameter that indicates the tree of the node.
 		 */
-		void* operator new(size_t const size, HoeffdingTree& tree){
+		void* operator new(size_t const size, HoeffdingTree& tree) noexcept{
 			int const tmp_offset = tree.buffer_offset + size;
 			int const tmp_preset = tree.buffer_preset - compute_total_size_counters(tree.sum_feature_size);
 			if(tmp_offset > tmp_preset)
@@ -502,12 +505,13 @@ class HoeffdingTree{
 		int const result = leaf->train(features, label, split_value);
 		if(result >= 0){
 			int const split_result = leaf->split(result, split_value);
+			if(split_result != 0) //There is no space to split, so it is still a leaf
+				return false;
 			//NOTE: it is very unlikely the node will split, so we don't check
 			if(features[result] <= split_value)
 				leaf->get_left_child()->train(features, label, split_value);
 			else
 				leaf->get_right_child()->train(features, label, split_value);
-			return (split_result == 0);
 		}
 		return true;
 	}
-- 
2.43.0


From 9098a9c4d4c503ed419755e380d34cde4395ac89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 15/44] fix: the box of the Hoeffding tree root never included
 the data points

---
 src/hoeffding_tree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 1697ae4..a6ee5fa 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -54,8 +54,9 @@ class HoeffdingTree{
 			reset_counters();
 			double const infinity = std::numeric_limits<float>::infinity();
 			for(int i = 0; i < feature_count; ++i){
-				l_box[i] = -infinity;
-				u_box[i] =  infinity;
+				//The box is empty until the first data point
+				l_box[i] =  infinity;
+				u_box[i] = -infinity;
 			}
 			int* count;
 			double* limits;
-- 
2.43.0


From 0892acb166f7a6948d65f1abc17f126f1949bf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 16/44] fix: the Hoeffding tree splits on the wrong feature

---
 src/hoeffding_tree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index a6ee5fa..422911d 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -236,11 +236,12 @@ class HoeffdingTree{
 			if(square_diff > epsilon && info_gain[best_split[0]] > 0){
 				split_value = limits[best_split[0]];
 				//Try to retrieve the feature concerned :>
-				int tmp_c = tree->features_size[0];
+				//NOTE: there is one limit less than there is bins
+				int tmp_c = tree->features_size[0] - 1;
 				for(int f = 0; f < feature_count-1; ++f){
 					if(best_split[0] < tmp_c)
 						return f;
-					tmp_c += tree->features_size[f+1];
+					tmp_c += tree->features_size[f+1] - 1;
 				}
 				//If the feature is not found, it must be the last one
 				return feature_count-1;
-- 
2.43.0


From 0bae1b73a62811291879e901371e2e9ecbe20f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 17/44] fix: a data point on a limit is counted on the wrong
 side of the Hoeffding tree split

---
 src/hoeffding_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 422911d..14a0902 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -189,7 +189,7 @@ class HoeffdingTree{
 				//Look for the bin
 				for(int lim_index = 0; lim_index < (tree->features_size[f]-1); ++lim_index){ //There is one limit less than there  is bins
 					//NOTE the limits are supposed to be sorted
-					if(features[f] < limits[tmp_feature_sum+lim_index-f]){
+					if(features[f] <= limits[tmp_feature_sum+lim_index-f]){ //below or equal, as in *sort_in_leaf*
 						label_counters[tmp_feature_sum + lim_index] += 1;
 						limit_found = true;
 						break;
-- 
2.43.0


From 60f182430496e6611552b74de905a0b72c4bc765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 18/44] fix: an empty leaf of the Hoeffding tree scores NaN

---
 src/hoeffding_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 14a0902..7f3b93e 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -113,7 +113,8 @@ class HoeffdingTree{
 			//Compute the probabilities.
 			//NOTE: *l* starts at 0 because if it starts at 1, the first probability won't be computed and stored in the array
 			for(int l = 0; l < label_count; ++l){
-				probabilities[l] = counts[l] / sum;
+				//NOTE: a leaf that has just been created did not see any data point
+				probabilities[l] = sum > 0 ? counts[l] / sum : 1.0 / label_count;
 				if(probabilities[l] > probabilities[best])
 					best = l;
 			}
-- 
2.43.0


From da4412a74dbdc998240b7b7877108f2acb1ace40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 19/44] fix: train() of the Mondrian forests returns an
 uninitialised value

---
 src/mondrian.hpp         | 2 +-
 src/mondrian_unbound.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 0801153..b4ac7c3 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -447,7 +447,7 @@ class MondrianForest{
 	 * @param label The label of the data point.
 	 */
 	bool train(feature_type const* features, int const label){
-		bool fully_trained;
+		bool fully_trained = true;
 		for(int i = 0; i < tree_count; ++i){
 			bool has_trained = train_tree(features, label, i);
 			if(!has_trained)
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index c00bc5b..c50507d 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -458,7 +458,7 @@ class MondrianForestUnbound{
 	 * @param label The label of the data point.
 	 */
 	bool train(feature_type const* features, int const label){
-		bool fully_trained;
+		bool fully_trained = true;
 		for(int i = 0; i < tree_count; ++i){
 			bool has_trained = train_tree(features, label, i);
 			if(!has_trained)
-- 
2.43.0


From 89c7cb72fcde431a35e676cbf1a5811eec4b0f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 20/44] fix: a Mondrian tree without a node for its root must
 not be trained

---
 src/mondrian.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index b4ac7c3..254bae1 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -281,6 +281,8 @@ class MondrianForest{
 		if (root_id == EMPTY_NODE){ //The root of the tree does not exist yet
 			//Pick a new node
 			root_id = available_node();
+			if(root_id < 0) //There is no more node available, this tree cannot be trained
+				return false;
 
 			//Initialize this node as the root for this tree
 			roots[tree_id] = root_id;
-- 
2.43.0


From d6d57de2a7d7b36ce960eb910cfdc8de818d677d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 21/44] fix: copying a MondrianForest loses the parent of each
 node

---
 src/mondrian.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 254bae1..693960b 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -53,6 +53,7 @@ class MondrianForest{
 			split_value = src.split_value;
 			child_left = src.child_left;
 			child_right = src.child_right;
+			parent = src.parent;
 			tau = src.tau;
 			for(int i = 0; i < label_count; ++i)
 				counters[i] = src.counters[i];
-- 
2.43.0


From 510089ccc236eefbb1c74988b835a979dc41e647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 22/44] fix: give back the parent node when there is no node
 for the sibling

---
 src/mondrian.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 693960b..85e6855 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -217,6 +217,9 @@ class MondrianForest{
 					sample_block(new_sibling, features, label);
 				}
 				else{
+					//Give back the node of the parent since there is no node for the sibling
+					nodes[new_parent].split_dimension = EMPTY_NODE;
+					nodes[new_parent].tau = EMPTY_NODE;
 					update_box = true;
 				}
 			}
-- 
2.43.0


From 6dd1d77162070f19ce70209bd19e9b4471810bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 23/44] fix: predict() of the Mondrian forests never sets the
 scores

---
 src/mondrian.hpp         | 5 +++++
 src/mondrian_coarse.hpp  | 5 +++++
 src/mondrian_unbound.hpp | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 85e6855..40efab7 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -485,6 +485,11 @@ class MondrianForest{
 		for(int k = 0; k < label_count; ++k)
 			sum_posterior_mean[k] /= static_cast<double>(tree_count);
 
+		//If *scores* is not null, then the function will also return the scores it found for each label.
+		if(scores != nullptr)
+			for(int k = 0; k < label_count; ++k)
+				scores[k] = sum_posterior_mean[k];
+
 		//Finally, we look for the best label
 		int best = 0;
 		for(int i = 1; i < label_count; ++i){
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index d99ef14..117f914 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -3287,6 +3287,11 @@ int predict(feature_type const* features, double* scores = nullptr, int tree_to_
 	for(int k = 0; k < label_count; ++k)
 		sum_posterior_mean[k] /= tree_used;
 
+	//If *scores* is not null, then the function will also return the scores it found for each label.
+	if(scores != nullptr)
+		for(int k = 0; k < label_count; ++k)
+			scores[k] = sum_posterior_mean[k];
+
 	//Finally, we look for the best label
 	return Utils::index_max(sum_posterior_mean, label_count);
 }
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index c50507d..e3e8e9a 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -488,6 +488,11 @@ class MondrianForestUnbound{
 		for(int k = 0; k < label_count; ++k)
 			sum_posterior_mean[k] /= static_cast<double>(tree_count);
 
+		//If *scores* is not null, then the function will also return the scores it found for each label.
+		if(scores != nullptr)
+			for(int k = 0; k < label_count; ++k)
+				scores[k] = sum_posterior_mean[k];
+
 		//Finally, we look for the best label
 		int best = 0;
 		for(int i = 1; i < label_count; ++i){
-- 
2.43.0


From 585d9d076ce476ee7f14bfdd5b9db1c4ddca8254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 24/44] fix: Utils::pick_from_distribution must not pick an
 impossible index

---
 src/utils.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utils.hpp b/src/utils.hpp
index f86478a..0368d39 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -14,10 +14,15 @@ class Utils{
 		double const u = func::rand_uniform(); //Sample a random number between [0,1[
 		//NOTE improve with a log search :]
 		for(int i = 0; i < size; ++i){
-			if(u <= probabilities[i])
+			if(u < probabilities[i]) //NOTE: strictly below, so an index with a null probability is never picked
 				return i;
 		}
-		return size;//NOTE: this should never happen unless the last element of *probabilities* is less than 1
+		//NOTE: this only happens if the last element of *probabilities* has been rounded below 1. Return the last index with a non-null probability
+		for(int i = size-1; i > 0; --i){
+			if(probabilities[i] > probabilities[i-1])
+				return i;
+		}
+		return 0;
 	}
 	/**
 	 * Turn an array of values into a sum of probabilities according to these values.
-- 
2.43.0


From cf670e9674069c291d6e1bd54b61f26cd684eb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:50 +0000
Subject: [PATCH 25/44] fix: MondrianForestUnbound leaks a node when the
 allocation of its sibling fails

---
 src/mondrian_unbound.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index e3e8e9a..842288e 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -1,4 +1,5 @@
 #include "utils.hpp"
+#include <memory>
 #include <vector>
 
 /**
@@ -262,8 +263,9 @@ class MondrianForestUnbound{
 
 			//sample the split between [lower_value, upper_value]
 			double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
-			InternalNode* new_parent = new InternalNode();
+			std::unique_ptr<InternalNode> parent_owner(new InternalNode()); //Released if the allocation of the sibling fails
 			LeafNode* new_sibling = new LeafNode();
+			InternalNode* new_parent = parent_owner.release();
 			count_internal_nodes += 1;
 			count_leaf_nodes += 1;
 			//insert new node above the current one
-- 
2.43.0


From 99e3527bf1a79ff9a1205ce85cff205f4bc144a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 26/44] fix: CoarseMondrianForest objects share where they look
 for empty nodes

---
 src/mondrian_coarse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 117f914..d950664 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -260,6 +260,7 @@ double fading_count = 1;//fading factor for the average point
 double nodes_fading_f = 0.995; //Fading factor of node
 double maximum_trim_size = 1.00;
 int has_been_full = 0;
+mutable int last_returned_node = 0; //Where *available_node* starts looking for an empty node
 
 
 Node* nodes() {
@@ -280,7 +281,6 @@ TreeBase const* tree_bases() const{
 int available_node(void) const{
 	if(node_available == 0)
 		return -1;
-	static int last_returned_node = 0;
 	for(int i = 0; i < node_count; ++i){
 		int const node_id = (i + last_returned_node) % node_count;
 		if(nodes()[node_id].available()){
-- 
2.43.0


From 130e0208333be17992af189a78a2cf6e40a83de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 27/44] fix: initialise the sums of CoarseMondrianForest and
 the size of its trees

---
 src/mondrian_coarse.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index d950664..5738407 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -211,6 +211,7 @@ struct TreeBase{
 	void reset(int const node_limit=1){
 		root = EMPTY_ROOT;
 		node_count_limit = node_limit;
+		size = 0;
 		statistics.reset();
 		sum_contribution = 0;
 		count_contribution = 0;
@@ -254,7 +255,7 @@ double lifetime;
 double base_measure;
 //The discount factor parameter
 double discount_factor;
-double sum_features[feature_count]; //Sum of all data points
+double sum_features[feature_count] = {0}; //Sum of all data points
 double count_points = 0; // count of points for the average point
 double fading_count = 1;//fading factor for the average point
 double nodes_fading_f = 0.995; //Fading factor of node
-- 
2.43.0


From 9db4402a56d41912e328010687adff63a9d1efd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 28/44] fix: CoarseMondrianForest counts a data point twice
 after a split with EXTEND_COUNTER_NO_UPDATE

---
 src/mondrian_coarse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 5738407..afe3aff 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -779,6 +779,7 @@ void extend_block3(int const node_id, int const tree_id, feature_type const* fea
 		}
 
 		sample_block(new_sibling, features, label);
+		return; //The data point is already counted in the new sibling
 	}
 	else if(E < 0 || parent_tau + E > node.tau){ //Otherwise, just update the box
 		//update lower bound and upper bound of this node
-- 
2.43.0


From f087fcd5ea4a57c76a6243294087a2f3b4135a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:06 +0000
Subject: [PATCH 29/44] fix: CoarseMondrianForest never grows with its default
 parameters

---
 src/mondrian_coarse.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index afe3aff..558ae01 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2059,8 +2059,12 @@ bool train_tree(feature_type const* features, int const label, int const tree_id
 
 		if(extend_type == EXTEND_ORIGINAL)
 			extend_block0(root_id, tree_id, features, label);
-		else if(extend_type == EXTEND_NONE && node_available <= 2)
-			ret = false;
+		else if(extend_type == EXTEND_NONE){ //Grow like the original until there is no more node
+			if(node_available <= 2)
+				ret = false;
+			else
+				extend_block0(root_id, tree_id, features, label);
+		}
 		else if(extend_type == EXTEND_PARTIAL_UPDATE)
 			extend_block2(root_id, tree_id, features, label);
 		else if(extend_type == EXTEND_GHOST)
@@ -2339,7 +2343,7 @@ bool tree_reset(int const tree_id) {
 	if(tree_management == ROBUR_MANAGEMENT)
 		tree_bases()[tree_id].reset(size_limit); //The size_limit has been corrected in constructor if needed.
 	else if(tree_management == COBBLE_MANAGEMENT || tree_management == OPTIMISTIC_COBBLE_MANAGEMENT)
-		tree_bases()[tree_id].reset(size_limit);
+		tree_bases()[tree_id].reset(size_limit > 0 ? size_limit : node_count);
 	else
 		tree_bases()[tree_id].reset(node_count);
 
@@ -2884,7 +2888,7 @@ CoarseMondrianForest(double const lifetime, double const base_measure, double co
 			size_limit = limit_to_use;
 		}
 		else if(tree_management == COBBLE_MANAGEMENT || tree_management == OPTIMISTIC_COBBLE_MANAGEMENT)
-			tree_bases()[i].reset(size_limit);
+			tree_bases()[i].reset(size_limit > 0 ? size_limit : node_count); //No limit if size_limit isn't set
 		else
 			tree_bases()[i].reset(node_count);
 	for(int i = 0; i < node_count; ++i)
-- 
2.43.0


From d474c9a2cdb89e429ca8ba954237b10436598eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 30/44] fix: node_depth of CoarseMondrianForest overflows its
 stack on a deep tree

---
 src/mondrian_coarse.hpp | 52 +++++++++++------------------------------
 1 file changed, 14 insertions(+), 38 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 558ae01..b4aef3b 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2274,55 +2274,31 @@ int tree_depth(int const tree_id, int* tree_node_count) const{
 }
 template<int max_stack_size=100>
 int node_depth(int const start_id, int* tree_node_count) const{
-	//Initialize an array to keep track of where we have to go at each tree level.
-	//The max depth expected is MAX_DEPTH.
-	int stack[max_stack_size];
-	for(int i = 0; i < max_stack_size; ++i)
-		stack[i] = -1;
-
 	int node_id = start_id;
+	//The node visited just before *node_id*. It tells where to go next, so there is no limit on the depth of the tree.
+	int previous_id = nodes()[start_id].parent;
 	int depth = 0, max_depth = 0;
 
 	//a for loop instead of a while to avoid infinite loops. Since we don't expect to do more turn than node_count
-	//*i* count the number of node deleted.
+	//*i* count the number of node visited.
 	int i = 0;
-	int depth_id = start_id;
 	while(i < node_count && depth >= 0){
 		Node const& node = nodes()[node_id];
-		if (node.is_leaf()){
+		int next_id;
+		if(!node.is_leaf() && previous_id == node.parent) //Coming from above, going right
+			next_id = node.child_right;
+		else if(!node.is_leaf() && previous_id == node.child_right) //Coming from the right, going left
+			next_id = node.child_left;
+		else{ //A leaf or the two sides are done, going up
 			i += 1;
 			//acknowledge the depth
-			if(depth > max_depth){
+			if(depth > max_depth)
 				max_depth = depth;
-				depth_id = node_id;
-			}
-
-			node_id = node.parent;
-			depth -= 1;
-		}
-		else{ //Internal Node
-			if (stack[depth] == -1){ //going right
-				stack[depth] = 0;
-				depth += 1;
-				node_id = node.child_right;
-			}
-			else if (stack[depth] == 0){ //Go left
-				stack[depth] = 1;
-				depth += 1;
-				node_id = node.child_left;
-			}
-			else if (stack[depth] == 1){ //Go up
-				i += 1;
-				stack[depth] = -1; //Reset to -1
-				depth -= 1;
-				node_id = node.parent;
-			}
-			#ifdef DEBUG
-			else{
-				cout << __FILE__ << ":" << __LINE__ << " CoarseMondrianForest::node_depth: stack[" << depth << "] == " << stack[depth] << " (should be -1, 0, or 1)" << endl;
-			}
-			#endif
+			next_id = node.parent;
 		}
+		depth += (next_id == node.parent ? -1 : 1);
+		previous_id = node_id;
+		node_id = next_id;
 	}
 	if(tree_node_count != nullptr)
 		*tree_node_count = i;
-- 
2.43.0


From 7e24585cbb918ff02ed75eeb8a976b1a4489abfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 31/44] fix: backpropagate reads before the layer sizes

---
 src/perceptron.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/perceptron.hpp b/src/perceptron.hpp
index 1b20ed4..565479d 100644
--- a/src/perceptron.hpp
+++ b/src/perceptron.hpp
@@ -165,7 +165,9 @@ class MultiLayerPerceptron{
 
 			for(int layer_idx = layer_count - 2; layer_idx >= 0; --layer_idx){
 				output_base -= layer_size[layer_idx];
-				weight_base -= (layer_size[layer_idx-1]+1) * layer_size[layer_idx];
+				//The number of input weights of this layer. The input layer does not have any.
+				int const layer_weights = layer_idx > 0 ? (layer_size[layer_idx-1]+1) * layer_size[layer_idx] : 0;
+				weight_base -= layer_weights;
 				for(int neuron_idx = 0; neuron_idx <= layer_size[layer_idx]; ++neuron_idx){
 					double neuron_error = 0;
 					double current_neuron_output = 1;
@@ -174,7 +176,7 @@ class MultiLayerPerceptron{
 					for(int weight_idx = 0; weight_idx < layer_size[layer_idx+1]; ++weight_idx){
 
 						int neuron_next_layer = output_base + layer_size[layer_idx] + weight_idx;
-						int weight_next_layer = weight_base + (layer_size[layer_idx-1]+1) * layer_size[layer_idx] + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
+						int weight_next_layer = weight_base + layer_weights + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
 						neuron_error += neuron_output[neuron_next_layer] * weights[weight_next_layer];
 					}
 					neuron_error *= func::derivative(current_neuron_output);
@@ -183,7 +185,7 @@ class MultiLayerPerceptron{
 					for(int weight_idx = 0; weight_idx < layer_size[layer_idx+1]; ++weight_idx){
 
 						int neuron_next_layer = output_base + layer_size[layer_idx] + weight_idx;
-						int weight_next_layer = weight_base + (layer_size[layer_idx-1]+1) * layer_size[layer_idx] + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
+						int weight_next_layer = weight_base + layer_weights + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
 						double d_weight = - learning_rate * current_neuron_output * neuron_output[neuron_next_layer];
 						weights[weight_next_layer] += d_weight;
 					}
-- 
2.43.0


From a0ed48d1147433d90c56f042846adab43cb2e29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 32/44] fix: coarse forest drops samples when the drawn
 lifetime equals that of the node

---
 src/mondrian_coarse.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index b4aef3b..5795667 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -526,7 +526,7 @@ void extend_block2(int const node_id, int const tree_id, feature_type const* fea
 
 		sample_block(new_sibling, features, label);
 	}
-	else if(E < 0 || parent_tau + E > node.tau){ //Otherwise, just update the box
+	else if(E < 0 || parent_tau + E >= node.tau){ //Otherwise, just update the box
 		//update lower bound and upper bound of this node
 		for(int i = 0; i < feature_count; ++i){
 			if(node.bound_lower[i] > features[i])
@@ -652,7 +652,7 @@ void extend_block1(int const node_id, int const tree_id, feature_type const* fea
 		sample_block(new_sibling, features, label);
 	}
 	//else{ //Otherwise, just update the box
-	else if(E < 0 || parent_tau + E > node.tau){ //Otherwise, just update the box
+	else if(E < 0 || parent_tau + E >= node.tau){ //Otherwise, just update the box
 		//update lower bound and upper bound of this node
 		for(int i = 0; i < feature_count; ++i){
 			if(node.bound_lower[i] > features[i])
@@ -781,7 +781,7 @@ void extend_block3(int const node_id, int const tree_id, feature_type const* fea
 		sample_block(new_sibling, features, label);
 		return; //The data point is already counted in the new sibling
 	}
-	else if(E < 0 || parent_tau + E > node.tau){ //Otherwise, just update the box
+	else if(E < 0 || parent_tau + E >= node.tau){ //Otherwise, just update the box
 		//update lower bound and upper bound of this node
 		for(int i = 0; i < feature_count; ++i){
 			if(node.bound_lower[i] > features[i])
-- 
2.43.0


From 5365b548ee81a267c184364843d845e071866a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:38 +0000
Subject: [PATCH 33/44] fix: discount of the Mondrian posterior means grows
 with the lifetime of a node instead of decaying

---
 src/mondrian.hpp         | 2 +-
 src/mondrian_coarse.hpp  | 2 +-
 src/mondrian_unbound.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 40efab7..408bc26 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -312,7 +312,7 @@ class MondrianForest{
 	void compute_posterior_mean(Node const& node, double *posterior_mean) const{
 		//posterior_mean start with the parent posterior_mean and the function updates to the current node
 		double const parent_tau = node.parent >= 0 ? nodes[node.parent].tau : 0; //The tau value of the parent of the root is 0
-		double const node_discount = func::exp(discount_factor * (node.tau - parent_tau));
+		double const node_discount = func::exp(-discount_factor * (node.tau - parent_tau));
 		double sum_counters = 0;
 		double sum_tab = 0;
 		double tab[label_count];
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 5795667..1ec9f96 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2084,7 +2084,7 @@ bool train_tree(feature_type const* features, int const label, int const tree_id
 void compute_posterior_mean(Node const& node, double *posterior_mean) const{
 	//posterior_mean start with the parent posterior_mean and the function updates to the current node
 	double const parent_tau = node.parent >= 0 ? nodes()[node.parent].tau : 0; //The tau value of the parent of the root is 0
-	double const node_discount = func::exp(discount_factor * (node.tau - parent_tau));
+	double const node_discount = func::exp(-discount_factor * (node.tau - parent_tau));
 	double sum_counters = 0;
 	double sum_tab = 0;
 	double tab[label_count];
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index 842288e..9268247 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -91,7 +91,7 @@ class MondrianForestUnbound{
 	void compute_posterior_mean(double *posterior_mean, double const discount_factor) const{
 		//posterior_mean start with the parent posterior_mean and the function updates to the current node
 		double const parent_tau = this->parent != nullptr ? this->parent->tau : 0; //The tau value of the parent of the root is 0
-		double const node_discount = func::exp(discount_factor * (this->tau - parent_tau));
+		double const node_discount = func::exp(-discount_factor * (this->tau - parent_tau));
 		double sum_counters = 0;
 		double sum_tab = 0;
 		double tab[label_count];
-- 
2.43.0


From f700ea6730dd6d4b63bc1c28eb549b61adb47830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:46 +0000
Subject: [PATCH 34/44] fix: a label that a Mondrian node did not see keeps the
 whole posterior mean of the parent

---
 src/mondrian.hpp         | 4 ++--
 src/mondrian_coarse.hpp  | 4 ++--
 src/mondrian_unbound.hpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 408bc26..903dea2 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -322,9 +322,9 @@ class MondrianForest{
 			tab[i] = Utils::min(node.counters[i], 1);
 			sum_tab += tab[i];
 		}
-		//For each label with a counter higher than zero, compute the posterior mean. Otherwise it is simply the posterior mean of the parent
+		//Compute the posterior mean of each label, unless the node did not see any data point. Then it is simply the posterior mean of the parent
 		for(int i = 0; i < label_count; ++i){
-			if(node.counters[i] > 0){
+			if(sum_counters > 0){
 				double const a = node.counters[i] - node_discount * tab[i];
 				double const b = node_discount * sum_tab * posterior_mean[i];
 				posterior_mean[i] = (a / sum_counters) + (b /sum_counters);
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 1ec9f96..4ee4994 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2094,9 +2094,9 @@ void compute_posterior_mean(Node const& node, double *posterior_mean) const{
 		tab[i] = Utils::min(node.counters[i], 1);
 		sum_tab += tab[i];
 	}
-	//For each label with a counter higher than zero, compute the posterior mean. Otherwise it is simply the posterior mean of the parent
+	//Compute the posterior mean of each label, unless the node did not see any data point. Then it is simply the posterior mean of the parent
 	for(int i = 0; i < label_count; ++i){
-		if(node.counters[i] > 0){
+		if(sum_counters > 0){
 			double const a = node.counters[i] - node_discount * tab[i];
 			double const b = node_discount * sum_tab * posterior_mean[i];
 			posterior_mean[i] = (a / sum_counters) + (b /sum_counters);
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index 9268247..6126c6a 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -102,10 +102,10 @@ class MondrianForestUnbound{
 			tab[i] = Utils::min(ci, static_cast<double>(1));
 			sum_tab += tab[i];
 		}
-		//For each label with a counter higher than zero, compute the posterior mean. Otherwise it is simply the posterior mean of the parent
+		//Compute the posterior mean of each label, unless the node did not see any data point. Then it is simply the posterior mean of the parent
 		for(int i = 0; i < label_count; ++i){
 			long long int ci = this->get_counters(i);
-			if(ci > 0){
+			if(sum_counters > 0){
 				double const c = static_cast<double>(ci);
 				double const a = c - node_discount * tab[i];
 				double const b = node_discount * sum_tab * posterior_mean[i];
-- 
2.43.0


From b7921cdc334f1f25413daa27396256341057e20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:53 +0000
Subject: [PATCH 35/44] fix: Mondrian branching probability uses the time since
 the root instead of the parent

---
 src/mondrian.hpp         | 1 +
 src/mondrian_coarse.hpp  | 1 +
 src/mondrian_unbound.hpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 903dea2..c5dde68 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -391,6 +391,7 @@ class MondrianForest{
 				break;
 			}
 			probability_not_separated_yet *= (1 - probability_of_branching);
+			parent_tau = current_node.tau;
 
 			//Otherwise, the child is picked based on the split of the node
 			if(features[current_node.split_dimension] <= current_node.split_value)
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 4ee4994..b109cff 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2167,6 +2167,7 @@ void predict_tree(feature_type const* features, int const tree_id, double* poste
 			break;
 		}
 		probability_not_separated_yet *= (1 - probability_of_branching);
+		parent_tau = current_node.tau;
 
 		//Otherwise, the child is picked based on the split of the node
 		if(features[current_node.split_dimension] <= current_node.split_value)
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index 6126c6a..d53c99f 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -430,6 +430,7 @@ class MondrianForestUnbound{
 			}
 			InternalNode* inode = dynamic_cast<InternalNode*>(current_node);
 			probability_not_separated_yet *= (1 - probability_of_branching);
+			parent_tau = current_node->tau;
 
 			//Otherwise, the child is picked based on the split of the node
 			if(inode->point_go_left(features))
-- 
2.43.0


From c77650de2eed030c3296b466d32dfc9f5df3b873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 36/44] fix: Mondrian scores outside of a box do not discount
 what comes from the parent

---
 src/mondrian.hpp         | 2 +-
 src/mondrian_coarse.hpp  | 2 +-
 src/mondrian_unbound.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index c5dde68..1623d74 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -375,7 +375,7 @@ class MondrianForest{
 
 				for(int l = 0; l < label_count; ++l){
 					//posterior_means of the parent of current_node
-					double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + c_sum * posterior_means[l]);
+					double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + new_node_discount * c_sum * posterior_means[l]);
 					//Note that *posterior_mean* is the value for the hypothetical parent
 					smoothed_posterior_means[l] += probability_not_separated_yet * probability_of_branching * posterior_mean;
 				}
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index b109cff..8a83161 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2150,7 +2150,7 @@ void predict_tree(feature_type const* features, int const tree_id, double* poste
 
 			for(int l = 0; l < label_count; ++l){
 				//posterior_means of the parent of current_node
-				double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + c_sum * posterior_means[l]);
+				double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + new_node_discount * c_sum * posterior_means[l]);
 				//Note that *posterior_mean* is the value for the hypothetical parent
 				smoothed_posterior_means[l] += probability_not_separated_yet * probability_of_branching * posterior_mean;
 			}
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index d53c99f..c6e884b 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -413,7 +413,7 @@ class MondrianForestUnbound{
 
 				for(int l = 0; l < label_count; ++l){
 					//posterior_means of the parent of current_node
-					double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + c_sum * posterior_means[l]);
+					double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + new_node_discount * c_sum * posterior_means[l]);
 					//Note that *posterior_mean* is the value for the hypothetical parent
 					smoothed_posterior_means[l] += probability_not_separated_yet * probability_of_branching * posterior_mean;
 				}
-- 
2.43.0


From cb378d59dc41a85430f522be8f5fb49860c2c8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 37/44] fix: CoarseMondrianForest split a leaf at the
 barycenter beyond the depth limit

---
 src/mondrian_coarse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 8a83161..ade725a 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -888,7 +888,7 @@ void extend_block4(int const node_id, int const tree_id, feature_type const* fea
 			bool has_split_bary = false;
 			//PAUSE
 			//if(!((total_count >= 20 && total_count <= 150)) && E < 0 && node_available >= 2){//Data point in the box
-			if(has_been_full > 20 && E < 0 && node_available >= 2){//Data point in the box
+			if(has_been_full > 20 && E < 0 && node_available >= 2 && !pause_expension){//Data point in the box
 					has_split_bary = split_barycenter(node_id, tree_id, features, label, parent_id, parent_tau);
 			}
 			if(!has_split_bary){
-- 
2.43.0


From c777c5e932c2f29800c66572e00b71cdb1f41176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:36 +0000
Subject: [PATCH 38/44] fix: CoarseMondrianForest::count_sides counted the
 leaves beside the split on the wrong side

---
 src/mondrian_coarse.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index ade725a..616731d 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1291,10 +1291,10 @@ int count_sides(int const start_id, int const split_dimension, double const spli
 				count_left += left;
 				count_right += right;
 			}
-			else if(split_value <= lower)
-				count_left += count;
-			else if(split_value >= upper)
+			else if(split_value <= lower) //The whole leaf is above the split
 				count_right += count;
+			else if(split_value >= upper)
+				count_left += count;
 
 			if(node_id == start_id)
 				break;
-- 
2.43.0


From 268cbf67df49f2b62e50e90817c6ce54b10b033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:40 +0000
Subject: [PATCH 39/44] fix: CoarseMondrianForest::adjust_counters rounded both
 sides, which lost or invented data points

---
 src/mondrian_coarse.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 616731d..40c0fd0 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1487,10 +1487,7 @@ int adjust_counters(int const start_id, int split_dimension, double split_value,
 				percentage = 1 - percentage;
 			for(int i = 0; i < label_count; ++i){
 				int counter_out = Utils::round(static_cast<double>(node.counters[i]) * percentage);
-				int counter_in = Utils::round(static_cast<double>(node.counters[i]) * (1 - percentage));
-				int const err = node.counters[i] - counter_in - counter_out;
-				if(err != 0)
-					cout << "Error counters" << endl;
+				int counter_in = node.counters[i] - counter_out;
 				to_remove[i] += counter_out;
 				node.counters[i] = counter_in;
 			}
-- 
2.43.0


From 68b629f35dabf40bef10f14823a93166d06a32d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:44 +0000
Subject: [PATCH 40/44] fix: CoarseMondrianForest::adjust_boxes removed leaves
 that hold data points and left the tree when the split is on a border of the
 node

---
 src/mondrian_coarse.hpp | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 40c0fd0..93bb8e7 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1336,18 +1336,9 @@ int adjust_boxes(int const start_id, int const split_dimension, double const spl
 					if(node.bound_lower[split_dimension] < split_value)
 						node.bound_lower[split_dimension] = split_value;
 				}
-				if(node.bound_upper[split_dimension] - node.bound_lower[split_dimension] == 0){ //This box is zero, let's go up
-					depth -= 1;
-					node_id = node.parent;
-					node_reset(node.child_right);
-					node_reset(node.child_left);
-					//NOTE the start_id node shouldn't be at zero.
-				}
-				else{ //Go right
-					stack[depth] = 0;
-					depth += 1;
-					node_id = node.child_right;
-				}
+				stack[depth] = 0;
+				depth += 1;
+				node_id = node.child_right;
 			}
 			else if (stack[depth] == 0){ //Go left
 				stack[depth] = 1;
@@ -1361,11 +1352,12 @@ int adjust_boxes(int const start_id, int const split_dimension, double const spl
 
 				Node const& child_left = nodes()[node.child_left];
 				Node const& child_right = nodes()[node.child_right];
-				int const left_zeroed = (child_left.bound_upper[split_dimension] - child_left.bound_lower[split_dimension] == 0);
-				int const right_zeroed = (child_right.bound_upper[split_dimension] - child_right.bound_lower[split_dimension] == 0);
+				//Only a leaf that is left without data point can be removed
+				int const left_zeroed = child_left.is_leaf() && (child_left.bound_upper[split_dimension] - child_left.bound_lower[split_dimension] == 0) && count_data_point_node(node.child_left) == 0;
+				int const right_zeroed = child_right.is_leaf() && (child_right.bound_upper[split_dimension] - child_right.bound_lower[split_dimension] == 0) && count_data_point_node(node.child_right) == 0;
 				bool const is_root = (node.parent < 0);
 				bool const is_starting = (node_id == start_id);
-				//NOTE either left or right is zeroed. If both are, then we stop going down at that node before
+				//NOTE if both are zeroed, the right one takes the place of the current node and is removed with its own parent
 				int replacer_id = -1, other_id = -1;
 				if(left_zeroed){ //replace current node with right
 					replacer_id = node.child_right;
-- 
2.43.0


From fa5c830082f73f3631860ef9c93e7f283ab3584f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 41/44] fix: CoarseMondrianForest scores were NaN when the
 point reaches a node without data point

---
 src/mondrian_coarse.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 93bb8e7..6b23b4c 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2139,7 +2139,8 @@ void predict_tree(feature_type const* features, int const tree_id, double* poste
 
 			for(int l = 0; l < label_count; ++l){
 				//posterior_means of the parent of current_node
-				double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + new_node_discount * c_sum * posterior_means[l]);
+				//A node without data point knows nothing more than its parent
+					double const posterior_mean = c_sum > 0 ? (1/c_sum) * (c[l] - new_node_discount * c[l] + new_node_discount * c_sum * posterior_means[l]) : posterior_means[l];
 				//Note that *posterior_mean* is the value for the hypothetical parent
 				smoothed_posterior_means[l] += probability_not_separated_yet * probability_of_branching * posterior_mean;
 			}
-- 
2.43.0


From 12982d013093ad0c9f674b79822db973f826d791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:17 +0000
Subject: [PATCH 42/44] fix: barycenter policy hands the kept subtree the share
 of its own side

With FE_DISTRIBUTION_PROPORTIONAL both branches used the count of the left side, so a subtree kept on the right got the share of the new leaf.
---
 src/mondrian_coarse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 6b23b4c..d9e1ec7 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1067,7 +1067,7 @@ void split_node(int const node_id, int const tree_id, feature_type const* featur
 	}
 	else if(fe_distribution == FE_DISTRIBUTION_PROPORTIONAL){
 		double const sum_count = static_cast<double>(count_left + count_right);
-		double const ratio_fe = subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_left)/sum_count;
+		double const ratio_fe = subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_right)/sum_count;
 		new_sibling.forced_extend = (1-ratio_fe) * node.forced_extend;
 		node.forced_extend *= ratio_fe;
 	}
@@ -1205,7 +1205,7 @@ bool split_barycenter(int const node_id, int const tree_id, feature_type const*
 	}
 	else if(fe_distribution == FE_DISTRIBUTION_PROPORTIONAL){
 		double const sum_count = static_cast<double>(count_left + count_right);
-		double const ratio_fe = subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_left)/sum_count;
+		double const ratio_fe = subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_right)/sum_count;
 		new_sibling.forced_extend = (1-ratio_fe) * node.forced_extend;
 		node.forced_extend *= ratio_fe;
 	}
-- 
2.43.0


From 4f9a5eaa0961093f723762b577177fdec955a2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:48 +0000
Subject: [PATCH 43/44] fix: barycenter policy: splitting a node that counts no
 data point divided by zero

With FE_DISTRIBUTION_PROPORTIONAL the share was 0/0 and the forced extension counts became INT_MIN.
---
 src/mondrian_coarse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index d9e1ec7..879e5d2 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1067,7 +1067,7 @@ void split_node(int const node_id, int const tree_id, feature_type const* featur
 	}
 	else if(fe_distribution == FE_DISTRIBUTION_PROPORTIONAL){
 		double const sum_count = static_cast<double>(count_left + count_right);
-		double const ratio_fe = subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_right)/sum_count;
+		double const ratio_fe = sum_count == 0 ? 0.5 : subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_right)/sum_count;
 		new_sibling.forced_extend = (1-ratio_fe) * node.forced_extend;
 		node.forced_extend *= ratio_fe;
 	}
@@ -1205,7 +1205,7 @@ bool split_barycenter(int const node_id, int const tree_id, feature_type const*
 	}
 	else if(fe_distribution == FE_DISTRIBUTION_PROPORTIONAL){
 		double const sum_count = static_cast<double>(count_left + count_right);
-		double const ratio_fe = subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_right)/sum_count;
+		double const ratio_fe = sum_count == 0 ? 0.5 : subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_right)/sum_count;
 		new_sibling.forced_extend = (1-ratio_fe) * node.forced_extend;
 		node.forced_extend *= ratio_fe;
 	}
-- 
2.43.0


From 3b78fa5f56a5b57ffaf567fa9b4c28db73d1ccfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:40 +0000
Subject: [PATCH 44/44] fix: Utils::shuffle never left an element where it was

---
 src/utils.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils.hpp b/src/utils.hpp
index 0368d39..7221471 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -88,7 +88,9 @@ class Utils{
 	inline static void shuffle(T* array, int const size){
 		for(int i = size-1; i > 0; --i){
 			T tmp = array[i];
-			int swap_idx = static_cast<int>(func::rand_uniform()*static_cast<double>(i));
+			int swap_idx = static_cast<int>(func::rand_uniform()*static_cast<double>(i+1)); //NOTE: an element may stay where it is
+			if(swap_idx > i) //NOTE: only if rand_uniform returns 1
+				swap_idx = i;
 			array[i] = array[swap_idx];
 			array[swap_idx] = tmp;
 		}
-- 
2.43.0

